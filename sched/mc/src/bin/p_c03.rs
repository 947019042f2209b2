// C03: boosting gives the same ensemble under every schedule.
use mc::explore::*;
use mc::scen::*;
use vharness::boost::Run;
use vharness::engine::thorough;
use vharness::model::Data;

#[allow(clippy::too_many_arguments)]
fn case(v: &mut Vec<Scenario>, name: &str, kind: usize, d: &Data, r: Run, pool: usize, worker: bool, plan: Plan, memory: bool) {
    let what = format!("{} ensemble, {}, {:?}, pool of {}, {}", ENSEMBLES[kind], d.describe(), r, pool, if worker { "called on a worker" } else { "called from outside" });
    let (d, e) = (d.clone(), d.clone());
    let show = move |d: &Data, r: Run| -> Outcome { Ok(format!("{:?}", ensemble(kind, d, r)?)) };
    add(
        v,
        format!("{}-{}-l{}i{}{}{}", name, ENSEMBLES[kind], r.levels, r.iters, if r.mt { "-mt" } else { "" }, if worker { "-in" } else { "" }),
        what,
        pool,
        0,
        &plan,
        memory,
        move || if worker { inside(|| show(&d, r)) } else { show(&d, r) },
        move || show(&e, Run { mt: false, ..r }),
    );
}

fn main() {
    let th = thorough();
    let x = th as u32;
    let mut v = vec![];
    for kind in 0..3 {
        let data = |n, c, k, fp, lp| if kind == 0 { big(n, c, k, fp, lp) } else { classes(n, c, k, fp, lp) };
        let run = |levels, iters, mt| Run { levels, iters, lr: 0.5, mt };
        for (i, &(n, c, k, fp, lp)) in [(3, 1, 2, 4, 10), (4, 1, 2, 0, 6), (4, 2, 3, 4, 14), (5, 1, 2, 2, 10)].iter().enumerate() {
            let d = data(n, c, k, fp, lp);
            for mt in [false, true] {
                for pool in 1..=3usize {
                    let name = format!("small{}", i);
                    let d3 = if pool == 2 && i < 2 { 2 } else { 1 };
                    case(&mut v, &name, kind, &d, run(1, 1, mt), pool, false, plan(pool + 1, 2, d3 + x, 1 + x, Some(1), pool < 3 || th), pool < 3 && i < 2);
                    case(&mut v, &name, kind, &d, run(1, 2, mt), pool, pool == 2, plan(pool + 1, 1, 1 + x, 1, Some(1), th), i == 0);
                    if i < 2 {
                        case(&mut v, &name, kind, &d, run(2, 3, mt), pool, false, plan(pool + 1, 1, 1, 1, Some(if pool < 3 { 1 } else { 0 }), th), false);
                    }
                }
            }
        }
        // most rows learnt at once and the rest, in the middle or at either end, mixed; full steps
        for (n, at) in [(5usize, 0usize), (6, 2), (7, 5), (9, 7)] {
            let base = data(n, 1, 2, 0, 0);
            let mut d = base.clone();
            for i in 0..n {
                let mixed = i == at || i == at + 1;
                d.rows[i] = vec![if mixed { 50.0 } else { (i % 2) as f64 }];
                let k = if mixed { i - at } else { i % 2 };
                d.labels[i] = (0..2).map(|j| (j == k) as u8 as f64).collect();
            }
            for (levels, lr, iters) in [(1, 1.0, 2), (2, 1.0, 3), (3, 0.75, 4)] {
                for pool in 2..=3usize {
                    let p = plan(pool + 1, 1, 1 + (x | (iters == 2) as u32), 1, Some(if iters < 4 { 1 } else { 0 }), th);
                    case(&mut v, &format!("mixed{}at{}", n, at), kind, &d, Run { levels, iters, lr, mt: false }, pool, false, p, false);
                }
            }
        }
        // the same with as many undecided rows as there are classes: far apart in certainty; and groups
        // of one to four rows whose residuals all differ
        for (i, (f, l)) in [
            ([0, 0, 0, 0, 1, 1, 2, 2], [0, 1, 2, 3, 0, 0, 1, 1]),
            ([1, 1, 2, 2, 0, 0, 0, 0], [0, 0, 1, 1, 0, 1, 2, 3]),
            ([1, 2, 0, 0, 0, 0, 1, 2], [0, 1, 0, 1, 2, 3, 0, 1]),
            ([0, 1, 1, 2, 2, 2, 3, 3], [3, 0, 1, 2, 2, 0, 1, 1]),
        ]
        .iter()
        .enumerate()
        {
            let d = Data { rows: f.iter().map(|x| vec![*x as f64]).collect(), labels: l.iter().map(|k| (0..4).map(|j| (j == *k) as u8 as f64 * if kind == 0 { 1.5 + j as f64 } else { 1.0 }).collect()).collect() };
            for (levels, lr, iters) in [(2, 1.0, 2), (3, 0.75, 3)] {
                for pool in 2..=3usize {
                    case(&mut v, &format!("undecided{}", i), kind, &d, Run { levels, iters, lr, mt: false }, pool, i == 2, plan(pool + 1, 1, 1 + (x & (iters == 2) as u32), 1, Some(if iters == 2 { 1 } else { 0 }), th), false);
                }
            }
        }
        // every number of rows on every small pool
        for n in 1..=if th { 33 } else { 17usize } {
            for pool in 1..=if th { 12 } else { 8usize } {
                let d = data(n, 1 + n % 3, 2, 10, 14);
                case(&mut v, &format!("rows{}", n), kind, &d, run(2, 2, n % 2 == 0), pool, (n + pool) % 2 == 0, plan(pool + 1, 0, 0, 0, None, false), false);
            }
        }
        // residuals of many rows, deeper trees, many workers
        for (n, c, k, levels, iters, pool) in [(12, 2, 3, 3, 2, 2), (20, 1, 2, 8, 1, 4), (48, 1, 2, 2, 2, 3), (130, 1, 2, 1, 1, 2), (300, 2, 3, 3, 1, 8), (1100, 1, 2, 1, 1, 2), (2100, 1, 2, 1, 2, 3)] {
            let d = data(n, c, k, 10, 14);
            for mt in [false, true] {
                let p = if n < 60 { plan(pool + 1, 1, 1, 0 + x, Some(0 + x), th) } else { plan(pool + 1, if th { 1 } else { 0 }, (n < 2000) as u32 | x, 0, Some(0), false) };
                case(&mut v, &format!("n{}c{}", n, c), kind, &d, run(levels, iters, mt), pool, false, p, false);
            }
        }
        // columns and branches side by side
        for (c, k) in [(5, 1), (6, 2), (9, 1), (17, 2)] {
            for (n, pool) in [(6, 2), (9, 3)] {
                if kind > 0 && k == 1 {
                    continue;
                }
                case(&mut v, &format!("wide{}t{}n{}", c, k, n), kind, &data(n, c, k, 10, 14), run(3, 2, true), pool, pool == 3, plan(pool + 1, 1, 1, if c < 9 || th { 1 } else { 0 }, Some(if c < 9 || th { 1 } else { 0 }), th), false);
            }
        }
        for pool in [6, 12, 16] {
            case(&mut v, "n33c4", kind, &data(33, 4, 2, 4, 14), run(3, 3, true), pool, pool == 6, vec![(0, 0, x), (1, 0, x), (2, 0, 0)], false);
        }
    }
    main_run(McCheck {
        id: "C03",
        rule: "a scenario trains one ensemble (1 to 3 iterations) on a pool of 1 to 16 workers, with and without multi-threaded trees; every schedule within its bounds is executed on the real code and the start value and all trees compared with those trained on one worker without multi-threading".into(),
        bounds: "per scenario, from the base schedules run-to-block, round robin and priority orders of the workers: all schedules with up to pN preemptions (run-to-block) and up to dN decisions other than the base's".into(),
        assumptions: vec![
            "sequentially consistent executions; the pool is rayon-core 1.9.1 with its queues, latches and sleeping replaced by ones under the scheduler".into(),
            "the reference ensemble is compared with the stagewise model by B01 to B03".into(),
        ],
        scenarios: v,
    });
}
