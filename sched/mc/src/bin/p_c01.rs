// C01: multi-threaded tree training gives the tree that single-threaded training gives.
use mc::explore::*;
use mc::scen::*;
use vharness::engine::thorough;
use vharness::model::Data;

#[allow(clippy::too_many_arguments)]
fn case(v: &mut Vec<Scenario>, name: &str, kind: usize, d: &Data, levels: u32, pool: usize, worker: bool, plan: Plan, memory: bool) {
    let what = format!("{} tree, {}, levels {}, pool of {}, {}", TREES[kind], d.describe(), levels, pool, if worker { "called on a worker" } else { "called from outside" });
    let (d, e) = (d.clone(), d.clone());
    add(
        v,
        format!("{}-{}-l{}{}", name, TREES[kind], levels, if worker { "-in" } else { "" }),
        what,
        pool,
        0,
        &plan,
        memory,
        move || if worker { inside(|| tree(kind, &d, levels, true)) } else { tree(kind, &d, levels, true) },
        move || tree(kind, &e, levels, false),
    );
}

fn main() {
    let th = thorough();
    let x = th as u32;
    let mut v = vec![];
    for kind in 0..4 {
        let data = |n, c, k, fp, lp| if kind == 0 { big(n, c, k, fp, lp) } else { classes(n, c, k, fp, lp) };
        // one worker: the caller and the worker are two threads
        case(&mut v, "n5c2", kind, &data(5, 2, 2, 4, 10), 3, 1, false, plan(2, 3, 4, 2, Some(1), true), true);
        // small trees of several shapes
        let small = [(4, 1, 2, 4, 10), (4, 2, 2, 0, 4), (5, 2, 3, 1, 14), (6, 3, 2, 10, 4), (6, 2, 2, 2, 10), (7, 1, 1, 4, 0), (8, 1, 2, 0, 6)];
        for (i, &(n, c, k, fp, lp)) in small.iter().enumerate() {
            if kind > 0 && k == 1 {
                continue;
            }
            let d = data(n, c, k, fp, lp);
            let wide = c > 2;
            case(&mut v, &format!("small{}", i), kind, &d, 2, 2, i % 2 == 0, plan(3, 2, if wide && !th { 2 } else { 3 + x }, if wide { 1 + x } else { 2 + x }, Some(1 + x), true), true);
            case(&mut v, &format!("small{}", i), kind, &d, 3, 3, i % 2 == 1, plan(4, 1 + x, 2 + x, 1 + x, Some(1 + x), th), i == 0 || th);
        }
        // a split on every level down to single rows; more workers than the tree has branches
        for (n, pool) in [(6, 4), (9, 2), (5, 8), (16, 3)] {
            case(&mut v, &format!("deep{}", n), kind, &data(n, 1, 2, 0, 10), 20, pool, false, plan(pool + 1, 1, 1 + x, 1, if pool < 5 || !th { Some(1) } else { None }, th), false);
        }
        // every number of rows on every small pool
        for n in 1..=if th { 33 } else { 17usize } {
            for pool in 1..=if th { 12 } else { 8usize } {
                let d = data(n, 1 + n % 3, 2, 10, 14);
                case(&mut v, &format!("rows{}", n), kind, &d, 4, pool, (n + pool) % 2 == 0, plan(pool + 1, 0, 0, 0, None, false), false);
            }
        }
        // larger data
        for (n, c, k, levels, pool) in [(40, 3, 2, 4, 2), (70, 2, 3, 20, 3), (300, 2, 2, 4, 4), (1100, 2, 2, 3, 2), (2100, 1, 2, 2, 2)] {
            let d = data(n, c, k, 10, 14);
            case(&mut v, &format!("n{}c{}", n, c), kind, &d, levels, pool, false, if th { plan(pool + 1, 1, 1, 1, Some(1), false) } else if n < 1000 { plan(pool + 1, 1, 1, 0, Some(0), false) } else { plan(pool + 1, 0, 1, 0, Some(0), false) }, false);
        }
        // columns and branches side by side: a worker that waits for a column may take up a branch
        for (c, k) in [(4, 1), (5, 1), (6, 2), (7, 1), (8, 3), (13, 1), (16, 2), (33, 1)] {
            for (n, pool) in [(6, 2), (9, 3), (8, 4)] {
                if kind > 1 && k == 1 {
                    continue;
                }
                let d = if kind == 1 { big(n, c, k, 10, 14) } else { data(n, c, k, 10, 14) };
                case(&mut v, &format!("wide{}t{}n{}", c, k, n), kind, &d, 4, pool, pool == 3, plan(pool + 1, 1, if c < 9 || th { 1 } else { 0 }, if c < 9 || th { 1 } else { 0 }, Some(if c < 6 || th { 1 } else { 0 }), pool < 4 || th), false);
            }
        }
        for pool in [6, 12, 16] {
            let d = data(33, 5, 2, 4, 14);
            case(&mut v, "n33c5", kind, &d, 6, pool, pool == 6, vec![(0, 0, x), (1, 0, x), (2, 0, 0)], false);
        }
    }
    main_run(McCheck {
        id: "C01",
        rule: "a scenario trains one tree with multi-threading on a pool of 1 to 16 workers; every schedule within its bounds is executed on the real code and the tree compared with the one trained without multi-threading on one worker".into(),
        bounds: "per scenario, from the base schedules run-to-block, round robin and priority orders of the workers: all schedules with up to pN preemptions (run-to-block) and up to dN decisions other than the base's; scheduling points: every queue and latch operation of the pool, every choice of a job to steal, every atomic operation, global access, unordered memory access, lock, thread operation".into(),
        assumptions: vec![
            "sequentially consistent executions; the pool is rayon-core 1.9.1 with its queues, latches and sleeping replaced by ones under the scheduler".into(),
            "the reference tree is the single-threaded builder's, which T02 compares with the model".into(),
        ],
        scenarios: v,
    });
}
