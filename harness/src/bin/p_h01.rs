// H01: calls do not influence one another. A case is a history of library calls run in a process of
// its own; every call must give what it gives as the first call of a fresh process, and afterwards
// every argument and every earlier model must still be what it was.
use common::data_processor::{create_dataset_with_sorted_features, new_partition};
use common::data_reader::*;
use common::datasets::{MultiTargetDataSet, MultiTargetDataSetSortedFeatures};
use common::numerical_calculations::*;
use common::question::Question;
use multi_target_decision_tree::data_partitioner::partition;
use multi_target_decision_tree::decision_trees::{RegressionMultiTargetDecisionTree, RegressionMultiTargetDecisionTreeNewPartition};
use multi_target_decision_tree::grad_boost_decision_trees::grad_boost_leaf_output::{LeafOutputCalculator, LeafOutputType};
use multi_target_decision_tree::scorer::{classification, regression};
use multi_target_decision_tree::split_finder::{SplitFinder, SplitMetric};
use multi_target_grad_boost::boosting_ensemble::boosting_types::{AMGBoostModel, MultiClassBoostModel, RegressionBoostModel};
use multi_target_grad_boost::boosting_ensemble::GradientBoostedEnsemble;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use vharness::boost::*;
use vharness::cases::*;
use vharness::engine::*;
use vharness::model::*;

const KINDS: [&str; 19] = [
    "read one file", "read one-hot", "read two files", "feature names", "sort columns", "partition rows", "partition sorted columns", "best split",
    "vector arithmetic", "tree", "tree, multi-threaded", "tree from sorted columns", "regression ensemble", "multi-class ensemble", "approximate ensemble",
    "leaf outputs", "shallow tree", "failing call", "other failing call",
];
const NDATA: usize = 10;

fn data(v: usize) -> Data {
    if v == 4 {
        // as data 0, but inner rows have exchanged their labels: same sums, same first and last row
        let mut d = data(0);
        let (i, j) = (1..6).flat_map(|i| (1..6).map(move |j| (i, j))).find(|&(i, j)| d.labels[i] != d.labels[j]).unwrap();
        d.labels.swap(i, j);
        return d;
    }
    if v == 6 || v == 8 {
        // as data 0 (7), but in every column two inner values are exchanged: same values, same extremes
        let mut d = data(if v == 6 { 0 } else { 7 });
        for k in 0..d.c() {
            let mut s: Vec<usize> = (0..d.n()).collect();
            s.sort_by(|&i, &j| d.rows[i][k].partial_cmp(&d.rows[j][k]).unwrap());
            let (lo, hi) = (d.rows[s[0]][k], d.rows[s[s.len() - 1]][k]);
            let inner: Vec<usize> = s.into_iter().filter(|&i| d.rows[i][k] != lo && d.rows[i][k] != hi).collect();
            let (i, j) = (inner[0], inner[inner.len() - 1]);
            let x = d.rows[i][k];
            d.rows[i][k] = d.rows[j][k];
            d.rows[j][k] = x;
        }
        return d;
    }
    if v == 9 {
        // as data 7, its column three times: all columns tie
        let mut d = data(7);
        d.rows.iter_mut().for_each(|r| *r = vec![r[0]; 3]);
        return d;
    }
    let (n, c, k, fp, lp) = match v {
        7 => (7, 1, 3, 10, 10), // one column
        5 => (70, 2, 3, 10, 10), // more rows
        0 => (7, 2, 3, 10, 10),
        1 => (7, 2, 3, 10, 13), // same features, other labels
        2 => (7, 2, 3, 14, 10), // other features, same labels
        _ => (10, 3, 2, 14, 4), // other shape
    };
    Big { n, c, t: k, fp, lp, scale: 1.0, offset: 0.0 }.classes(k).0
}

fn hd(d: &MultiTargetDataSet) -> u64 {
    let mut h = H::new(1);
    for part in [&d.feature_rows, &d.labels, &d.feature_columns] {
        h.u(part.len() as u64);
        for r in part {
            h.fs(r);
        }
    }
    h.get()
}
fn hs(d: &MultiTargetDataSetSortedFeatures) -> u64 {
    let mut h = H::new(2);
    h.u(d.labels.len() as u64);
    for r in &d.labels {
        h.fs(r);
    }
    for c in &d.sorted_feature_columns {
        h.u(c.len() as u64);
        for (v, i) in c {
            h.f(*v).u(*i as u64);
        }
    }
    h.get()
}

struct Out {
    result: u64,
    /// (value at the time of the call, value now)
    kept: Vec<(&'static str, u64, Box<dyn Fn() -> u64>)>,
}
impl Out {
    fn keep(&mut self, what: &'static str, f: impl Fn() -> u64 + 'static) {
        let v = f();
        self.kept.push((what, v, Box::new(f)));
    }
}

thread_local! {
    /// Frees what calls were given and returned, in the mode that does so after every call.
    static FREE: RefCell<Vec<Box<dyn FnOnce()>>> = RefCell::new(vec![]);
    /// In that mode: argument data sets, whose memory is overwritten by the next one of that shape.
    static BUFFERS: RefCell<Vec<*mut MultiTargetDataSet>> = RefCell::new(vec![]);
    static RECYCLE: std::cell::Cell<bool> = std::cell::Cell::new(false);
}
fn fixed<T: 'static>(x: T) -> &'static T {
    let p = Box::into_raw(Box::new(x));
    FREE.with(|f| f.borrow_mut().push(Box::new(move || unsafe { drop(Box::from_raw(p)) })));
    unsafe { &*p }
}
fn argument(d: &Data) -> &'static MultiTargetDataSet {
    if !RECYCLE.with(|r| r.get()) {
        return fixed(d.ds());
    }
    let ds = d.ds();
    BUFFERS.with(|b| unsafe {
        let mut b = b.borrow_mut();
        for p in b.iter() {
            let old = &mut **p;
            if old.feature_rows.len() == d.n() && old.feature_columns.len() == d.c() && old.labels[0].len() == d.t() {
                for (to, from) in [(&mut old.feature_rows, &ds.feature_rows), (&mut old.feature_columns, &ds.feature_columns), (&mut old.labels, &ds.labels)] {
                    for (x, y) in to.iter_mut().zip(from) {
                        x.copy_from_slice(y);
                    }
                }
                return &**p;
            }
        }
        b.push(Box::into_raw(Box::new(ds)));
        &**b.last().unwrap()
    })
}

fn call(kind: usize, v: usize, scratch: &str) -> Result<Out, String> {
    let d = data(v);
    let ds: &'static MultiTargetDataSet = argument(&d);
    let before = hd(ds);
    let mut h = H::new(kind as u64);
    let mut out = Out { result: 0, kept: vec![] };
    let probes = fixed(probe_rows(&d));
    match kind {
        0..=3 => {
            // the same paths hold other contents at every call
            let (a, b) = (format!("{}/a.csv", scratch), format!("{}/b.csv", scratch));
            let head = |n: usize| (0..n).map(|j| format!("h{}_{}", v, j)).collect::<Vec<_>>().join(",");
            let num = |r: &Vec<f64>| r.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
            let mut s = head(d.c() + 1) + "\n";
            let mut f = head(d.c()) + "\n";
            let mut l = head(d.t()) + "\n";
            for i in 0..d.n() {
                s += &format!("{},{}\n", num(&d.rows[i]), argmax_first(&d.labels[i]));
                f += &format!("{}\n", num(&d.rows[i]));
                l += &format!("{}\n", num(&d.labels[i]));
            }
            std::fs::write(&a, if kind == 2 { f } else { s }).unwrap();
            std::fs::write(&b, l).unwrap();
            match kind {
                0 => {
                    let r = read_csv_data(&a);
                    r.features.iter().for_each(|x| { h.fs(x); });
                    h.fs(&r.labels);
                }
                1 => {
                    h.u(hd(&read_csv_data_one_hot_multi_target(&a, d.t())));
                }
                2 => {
                    h.u(hd(&read_csv_data_multi_target(&a, &b)));
                }
                _ => get_feature_names(&a).iter().for_each(|s| s.bytes().for_each(|b| { h.u(b as u64); })),
            }
        }
        4 => {
            let s = fixed(create_dataset_with_sorted_features(ds));
            h.u(hs(s));
            out.keep("sorted data set", move || hs(s));
        }
        5 => {
            let q = Question::new(d.c() as u32 - 1, d.rows[2][d.c() - 1]);
            let (f, t) = partition(ds, &q);
            let (f, t) = (fixed(f), fixed(t));
            h.u(hd(f)).u(hd(t));
            out.keep("partitioned data set", move || hd(f) ^ hd(t).rotate_left(1));
        }
        6 => {
            let all: &'static Vec<&'static Vec<f64>> = fixed(ds.labels.iter().collect());
            let s = fixed(create_dataset_with_sorted_features(ds));
            let (t, f) = new_partition(s, 0, d.rows[3][0], all);
            let (f, t) = (fixed(f), fixed(t));
            h.u(hs(f)).u(hs(t));
            out.keep("sorted data set", move || hs(s));
            out.keep("partitioned sorted data set", move || hs(f) ^ hs(t).rotate_left(1));
        }
        7 => {
            let r = (SplitFinder::new(SplitMetric::Variance).find_best_split)(ds, d.t() as u32);
            h.f(r.gain).u(r.question.column as u64).f(r.question.value);
        }
        8 => {
            h.fs(&calculate_average_f64_vector(&ds.feature_rows));
            h.fs(&sum_of_f64_vectors(&ds.feature_rows));
            h.fs(&add_f64_slices_as_vector(&ds.feature_rows[0], &ds.feature_rows[1]));
            h.fs(&subtract_f64_slices_as_vector(&ds.feature_rows[0], &ds.feature_rows[1]));
            h.fs(&multiply_f64_slices_as_vector(&ds.feature_rows[0], &ds.feature_rows[1]));
            h.fs(&divide_f64_slices_as_vector(&ds.labels[0], &ds.labels[1]));
            h.fs(&multiply_f64_slice_by_f64_scalar(1.5, &ds.feature_rows[1]));
            h.f(mean_sum_of_squared_differences_between_f64_slices(&ds.feature_rows[0], &ds.feature_rows[1]));
        }
        9 | 10 | 16 => {
            let m = fixed(Box::new(RegressionMultiTargetDecisionTree::new(ds.clone(), config(d.t(), if kind == 16 { 1 } else { 4 }, kind == 10)).root));
            let c = d.c();
            let view = move || -> u64 {
                let mut h = H::new(3);
                if let Ok(t) = read_tree(m, c, &mut held) {
                    t.hash_shape(&mut h);
                    t.map(&mut |x| {
                        x.rows.iter().chain(&x.labels).for_each(|r| { h.fs(r); });
                    });
                }
                for p in probes.iter() {
                    h.fs(&classification::predict_class(p, m));
                }
                h.f(classification::calculate_accuracy(ds, m)).f(regression::calculate_overall_mean_squared_error(ds, m));
                h.get()
            };
            // (built once per call: counters must not always strike a tree nobody looks at)
            let text = printed(|| multi_target_decision_tree::printer::print_tree_regression(m, "".into(), &(0..c).map(|j| format!("f{}", j)).collect::<Vec<_>>()));
            text.bytes().for_each(|b| { h.u(b as u64); });
            h.u(view());
            out.keep("tree", view);
        }
        11 => {
            let s = create_dataset_with_sorted_features(ds);
            let m = fixed(Box::new(RegressionMultiTargetDecisionTreeNewPartition::new(s, config(d.t(), 4, false)).root));
            let c = d.c();
            let view = move || -> u64 {
                let mut h = H::new(4);
                if let Ok(t) = read_tree(m, c, &mut held_new) {
                    t.hash_shape(&mut h);
                    t.map(&mut |x| {
                        x.labels.iter().for_each(|r| { h.fs(r); });
                        x.columns.iter().flatten().for_each(|(v, i)| { h.f(*v).u(*i as u64); });
                    });
                }
                h.f(regression::calculate_overall_mean_squared_error_new_partition(ds, m));
                h.get()
            };
            h.u(view());
            out.keep("tree from sorted columns", view);
        }
        12 => {
            let m = fixed(RegressionBoostModel::train(ds.clone(), config(d.t(), 2, true), 3, 0.5));
            let p = Plain::reg(m, d.c())?;
            h.u(p.hash());
            ensemble(m, ds, probes, &mut h, &mut out);
        }
        13 => {
            let m = fixed(MultiClassBoostModel::train(ds.clone(), config(d.t(), 2, false), 3, 0.5));
            let p = Plain::mc(m, d.c())?;
            h.u(p.hash());
            ensemble(m, ds, probes, &mut h, &mut out);
        }
        14 => {
            let m = fixed(AMGBoostModel::train(ds.clone(), config(d.t(), 2, true), 3, 0.5));
            let p = Plain::amg(m, d.c(), d.t())?;
            h.u(p.hash());
            ensemble(m, ds, probes, &mut h, &mut out);
        }
        17 | 18 => {
            // calls that cannot succeed: whether they fail (or what they give) must not depend on the
            // history either, and they must not disturb what follows
            let g = guard(|| failing(v + (kind - 17) * NDATA, &d, ds, probes, scratch));
            h.u(match g { Ok(x) => x, Err(_) => 1 });
        }
        _ => {
            let mut r = ds.clone();
            for (i, l) in r.labels.iter_mut().enumerate() {
                for (j, x) in l.iter_mut().enumerate() {
                    *x -= 0.125 * (1 + (i + j) % 5) as f64;
                }
            }
            for t in [LeafOutputType::Regression, LeafOutputType::MultiClassClassification] {
                h.fs(&(LeafOutputCalculator::new(t).calculate_leaf_output)(&r));
            }
        }
    }
    out.kept.push(("argument data set", before, Box::new(move || hd(ds))));
    out.result = h.get();
    Ok(out)
}

fn failing(v: usize, d: &Data, ds: &'static MultiTargetDataSet, probes: &Vec<Vec<f64>>, scratch: &str) -> u64 {
    let a = format!("{}/a.csv", scratch);
    let mut h = H::new(77);
    let ragged = || {
        let mut r = ds.clone();
        r.labels[d.n() - 2].pop();
        r
    };
    let short = || {
        let mut r = ds.clone();
        let at = r.feature_rows.len() - 2;
        r.feature_rows[at].pop();
        r
    };
    match v {
        0 => {
            std::fs::write(&a, "x,y\n1,0\n2\n3,1\n").unwrap();
            h.fs(&read_csv_data(&a).labels);
        }
        1 => {
            h.u(hd(&read_csv_data_multi_target(&a, &format!("{}/none.csv", scratch))));
        }
        2 => {
            std::fs::write(&a, "x,y\n1,0\n2,5\n3,1\n").unwrap();
            h.u(hd(&read_csv_data_one_hot_multi_target(&a, 3)));
        }
        3 => {
            h.fs(&add_f64_slices_as_vector(&ds.labels[0], &[1.0]));
        }
        4 => {
            // the trained tree asks for a column the row does not have
            let m = Box::new(RegressionMultiTargetDecisionTree::new(ds.clone(), config(d.t(), 4, false)).root);
            probes.iter().for_each(|p| { h.fs(&classification::predict_class(&p[..1].to_vec(), &m)); });
        }
        5 => {
            RegressionMultiTargetDecisionTree::new(ragged(), config(d.t(), 4, true));
        }
        6 => {
            let mut r = ds.clone();
            r.feature_rows[2][0] = f64::NAN;
            r.feature_columns[0][2] = f64::NAN;
            RegressionMultiTargetDecisionTreeNewPartition::new(create_dataset_with_sorted_features(fixed(r)), config(d.t(), 4, false));
        }
        7 => {
            RegressionBoostModel::train(ragged(), config(d.t(), 2, true), 3, 0.5);
        }
        9 => {
            RegressionMultiTargetDecisionTree::new(ragged(), config(d.t(), 4, false));
        }
        // rows that lack their last value: noticed when the rows are used
        10 => {
            RegressionMultiTargetDecisionTree::new(short(), config(d.t(), 4, false));
        }
        11 => {
            AMGBoostModel::train(short(), config(d.t(), 3, false), 3, 0.5);
        }
        12 => {
            RegressionBoostModel::train(short(), config(d.t(), 3, false), 3, 0.5);
        }
        13 => {
            let m = Box::new(RegressionMultiTargetDecisionTree::new(ds.clone(), config(d.t(), 4, false)).root);
            h.f(classification::calculate_accuracy(&short(), &m)).f(regression::calculate_overall_mean_squared_error(&short(), &m));
        }
        14 => {
            let m = MultiClassBoostModel::train(ds.clone(), config(d.t(), 3, false), 3, 0.5);
            m.calculate_all_predictions(&short()).iter().for_each(|p| { h.fs(p); });
        }
        15 => {
            partition(ds, &Question::new(d.c() as u32, 0.0));
        }
        16 => {
            let s = create_dataset_with_sorted_features(ds);
            new_partition(&s, d.c(), 0.0, &s.labels);
        }
        17 => {
            RegressionMultiTargetDecisionTreeNewPartition::new(create_dataset_with_sorted_features(fixed(ragged())), config(d.t(), 4, false));
        }
        _ => {
            let m = MultiClassBoostModel::train(ds.clone(), config(d.t(), 2, false), 2, 0.5);
            probes.iter().for_each(|p| { h.fs(&m.predict(&p[..0])); });
        }
    }
    h.get()
}

fn ensemble<M: GradientBoostedEnsemble>(m: &'static M, ds: &'static MultiTargetDataSet, probes: &'static Vec<Vec<f64>>, h: &mut H, out: &mut Out) {
    let view = move || {
        let mut h = H::new(5);
        for p in probes.iter() {
            h.fs(&m.predict(p));
        }
        for p in m.calculate_all_predictions(ds) {
            h.fs(&p);
        }
        h.f(m.calculate_score(ds));
        h.get()
    };
    h.u(view());
    out.keep("ensemble", view);
}

/// What a call prints (standard output of a history is a memory file).
fn printed(f: impl FnOnce()) -> String {
    use std::io::Write;
    unsafe {
        std::io::stdout().flush().unwrap();
        assert!(libc::ftruncate(1, 0) == 0);
        libc::lseek(1, 0, libc::SEEK_SET);
        f();
        std::io::stdout().flush().unwrap();
        let n = libc::lseek(1, 0, libc::SEEK_CUR) as usize;
        let mut b = vec![0u8; n];
        assert!(libc::pread(1, b.as_mut_ptr() as *mut _, n, 0) as usize == n);
        String::from_utf8_lossy(&b).into_owned()
    }
}

type Op = (usize, usize);

/// Runs a history in a forked process; gives each call's result.
fn history(ops: &[Op], mode: usize, scratch: &str) -> Result<Vec<u64>, String> {
    use std::io::Read;
    use std::os::unix::io::FromRawFd;
    let mut fds = [0i32; 2];
    unsafe {
        assert!(libc::pipe(fds.as_mut_ptr()) == 0);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::close(fds[0]);
            let out = libc::syscall(libc::SYS_memfd_create, b"stdout\0".as_ptr(), 0) as i32;
            libc::dup2(out, 1);
            // a file that stays open is soon one too many
            let files = libc::rlimit { rlim_cur: 64, rlim_max: 64 };
            libc::setrlimit(libc::RLIMIT_NOFILE, &files);
            std::env::set_var("RAYON_NUM_THREADS", if mode == 2 { "3" } else { "1" });
            let body = || -> String {
                let mut outs: Vec<Out> = vec![];
                RECYCLE.with(|r| r.set(mode == 3));
                for (i, &(k, v)) in ops.iter().enumerate() {
                    match guard(|| call(k, v, scratch)) {
                        Ok(Ok(mut o)) => {
                            if mode == 3 {
                                for (what, was, now) in o.kept.drain(..) {
                                    if now() != was {
                                        return format!("E the {} of call {} ({} on data {}) is not what it was right after the call", what, i, KINDS[k], v);
                                    }
                                }
                                let f = FREE.with(|f| std::mem::take(&mut *f.borrow_mut()));
                                f.into_iter().rev().for_each(|x| x());
                            }
                            outs.push(o)
                        }
                        Ok(Err(e)) | Err(e) => return format!("E call {} ({} on data {}): {}", i, KINDS[k], v, e),
                    }
                }
                for (i, o) in outs.iter().enumerate() {
                    for (what, was, now) in &o.kept {
                        match guard(|| now()) {
                            Ok(n) if n == *was => {}
                            Ok(_) => return format!("E the {} of call {} ({} on data {}) is not what it was, or predicts otherwise, after the later calls", what, i, KINDS[ops[i].0], ops[i].1),
                            Err(e) => return format!("E using the {} of call {} again: {}", what, i, e),
                        }
                    }
                }
                outs.iter().map(|o| format!("{:016x} ", o.result)).collect()
            };
            let text = if mode == 1 { in_pool(1, || { let b = SendBox(&body); b.run() }) } else { body() };
            libc::write(fds[1], text.as_ptr() as *const _, text.len());
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut s = String::new();
        let _ = std::fs::File::from_raw_fd(fds[0]).read_to_string(&mut s);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if !libc::WIFEXITED(st) || s.is_empty() {
            return Err(format!("the process of the history died (status {})", st));
        }
        if let Some(e) = s.strip_prefix("E ") {
            return Err(e.to_string());
        }
        Ok(s.split_whitespace().map(|x| u64::from_str_radix(x, 16).unwrap()).collect())
    }
}
struct SendBox<'a>(&'a dyn Fn() -> String);
unsafe impl Send for SendBox<'_> {}
impl SendBox<'_> {
    fn run(self) -> String {
        (self.0)()
    }
}

type Base = Rc<RefCell<HashMap<(Op, usize), u64>>>;

fn check(ops: &[Op], mode: usize, base: &Base, ctx: &mut Ctx) -> CaseResult {
    let name = |o: &Op| format!("{} on data {}", KINDS[o.0], o.1);
    ctx.describe(|| {
        let mut s: Vec<String> = vec![];
        let mut i = 0;
        while i < ops.len() {
            let mut j = i;
            while j < ops.len() && ops[j] == ops[i] {
                j += 1;
            }
            s.push(if j - i > 1 { format!("{} x {}", j - i, name(&ops[i])) } else { name(&ops[i]) });
            i = j;
        }
        format!("calls [{}], {}", s.join("; "), ["one worker thread", "inside a one-thread pool", "three worker threads", "memory reused"][mode])
    });
    for &o in ops {
        let known = base.borrow().contains_key(&(o, mode));
        if !known {
            let r = history(&[o], mode, &ctx.scratch).map_err(|e| format!("{} as the only call: {}", name(&o), e))?;
            base.borrow_mut().insert((o, mode), r[0]);
        }
    }
    let got = history(ops, mode, &ctx.scratch)?;
    let mut h = H::new(9);
    for (i, (&o, &g)) in ops.iter().zip(&got).enumerate() {
        h.u(o.0 as u64 * 16 + o.1 as u64);
        ctx.state(h.get());
        ctx.trans(1);
        ctx.outcome(g);
        if g != base.borrow()[&(o, mode)] {
            return Err(format!("call {} ({}) gives another result than the same call in a fresh process", i, name(&o)));
        }
    }
    ctx.trace();
    Ok(())
}

fn main() {
    let th = thorough();
    let nk = KINDS.len();
    let base: Base = Default::default();
    let mut fams = vec![];
    let all: Vec<Op> = (0..nk * NDATA).map(|i| (i / NDATA, i % NDATA)).collect();
    let two: Vec<Op> = (0..nk * 2).map(|i| (i / 2, i % 2)).collect();
    let core: Vec<Op> = if th { two.clone() } else { two.iter().cloned().filter(|o| [0, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 17, 18].contains(&o.0)).collect() };
    let few: Vec<Op> = [(5, 0), (6, 0), (7, 1), (9, 0), (9, 1), (10, 0), (11, 0), (11, 2), (12, 0), (12, 1), (13, 0), (13, 1), (14, 0), (14, 1)].to_vec();
    let mut seq = |name: &str, ops: Vec<Op>, len: usize, modes: Vec<usize>| {
        let base = base.clone();
        let n = ops.len() as u64;
        let nm = modes.len() as u64;
        fams.push(Family::new(format!("{}-{}", name, len), n.pow(len as u32) * nm, move |i, ctx| {
            let mut cut = Cut(i);
            let mode = modes[cut.take(nm)];
            let s: Vec<Op> = digits(cut.0, n, len).into_iter().map(|k| ops[k]).collect();
            check(&s, mode, &base, ctx)
        }).chunk(16));
    };
    seq("all", all.clone(), 1, vec![0, 1, 2, 3]);
    seq("all", all.clone(), 2, vec![0, 1, 2, 3]);
    seq("core", core, 3, vec![0, 3]);
    if th {
        seq("few", few, 4, vec![0, 2]);
        seq("all", all, 3, vec![0]);
    }
    // a call repeated many times, then another one
    let reps: Vec<usize> = if th { vec![5, 17, 40, 70, 140, 300, 1100] } else { vec![17, 70] };
    let nr = reps.len() as u64;
    let b2 = base.clone();
    let n2 = two.len() as u64;
    let two2 = two.clone();
    fams.push(Family::new("repeat", n2 * n2 * nr, move |i, ctx| {
        let mut cut = Cut(i);
        let m = reps[cut.take(nr)];
        let a = two[cut.take(n2)];
        let z = two[cut.take(n2)];
        let mut s = vec![a; m];
        s.push(z);
        check(&s, 0, &b2, ctx)
    }).chunk(4));
    // the same call very often: counters, budgets and caches that fill up
    let often: Vec<(usize, usize)> = if th { vec![(300, 0), (1100, 2), (5000, 3), (66_000, 3)] } else { vec![(300, 0), (1100, 3)] };
    let nf = often.len() as u64;
    let b3 = base.clone();
    fams.push(Family::new("often", n2 * nf, move |i, ctx| {
        let mut cut = Cut(i);
        let (m, mode) = often[cut.take(nf)];
        check(&vec![two2[cut.take(n2)]; m], mode, &b3, ctx)
    }).chunk(1));
    main_run(Check {
        id: "H01",
        level: "model_checking",
        rule: "every sequence of library calls (19 kinds, two of them failing calls, x 10 data sets) of the listed lengths, each in a process of its own; the model of a call is its result as the first call of a fresh process, so the state of the model is the set of arguments and models handed out so far, all of which are evaluated again at the end".into(),
        assumptions: vec!["in the mode 'memory reused' every call's arguments lie where the previous call's of that shape lay and all its results are freed after it".into(), "calls follow one another (overlapping calls: C04)".into(), "the argument data are ten fixed data sets".into(), "no more than 64 files may be open in the process of a history".into()],
        families: fams,
        pool: false,
        bounds: "complete: all sequences of 2 calls over 190 calls with 1 and 3 worker threads, of 3 over 26 (38 thorough; and over all 190), of 4 over 14 (thorough); a call repeated up to 70 (1100) times before another; the same call 300 and 1100 (66000) times".into(),
    });
}
