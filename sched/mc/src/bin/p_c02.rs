// C02: the split search and the sorted-column partition give what a sequential pass over the columns
// gives, under every schedule.
use common::data_processor::{create_dataset_with_sorted_features, new_partition};
use mc::explore::*;
use mc::scen::*;
use vharness::engine::thorough;
use vharness::model::*;

/// Columns given by the rank lists; labels one column per list.
fn data(cols: &[&[i32]], labels: &[&[i32]]) -> Data {
    let n = cols[0].len();
    Data {
        rows: (0..n).map(|i| cols.iter().map(|c| c[i] as f64).collect()).collect(),
        labels: (0..n).map(|i| labels.iter().map(|l| l[i] as f64).collect()).collect(),
    }
}

/// What a left-to-right pass over the columns selects: each column searched on its own.
fn sequential(d: &Data) -> Result<(f64, u32, f64), String> {
    let mut best = (0.0, 0, 0.0);
    for j in 0..d.c() {
        let one = Data { rows: d.rows.iter().map(|r| vec![r[j]]).collect(), labels: d.labels.clone() };
        let (g, col, v) = split(&one);
        if col != 0 {
            return Err(format!("a data set of one column is split on column {}", col));
        }
        if g > best.0 {
            best = (g, j as u32, v);
        }
    }
    Ok(best)
}

fn best(d: &Data) -> Outcome {
    Ok(format!("{:?}", split(d)))
}
fn best_reference(d: &Data) -> Outcome {
    let (all, seq) = (split(d), sequential(d)?);
    if all.1 != seq.1 || all.2 != seq.2 || !close(all.0, seq.0, 1e-9 * (1.0 + seq.0.abs())) {
        return Err(format!("one worker selects {:?}, a pass over the columns one by one {:?}", all, seq));
    }
    Ok(format!("{:?}", all))
}

type Side = (Vec<Vec<f64>>, Vec<Vec<(f64, usize)>>);
fn parts(d: &Data, qs: &[(usize, f64)]) -> Outcome {
    let ds = d.ds();
    let s = create_dataset_with_sorted_features(&ds);
    let mut v = vec![];
    for &(c, x) in qs {
        let (a, b) = new_partition(&s, c, x, &s.labels);
        let side = |p: common::datasets::MultiTargetDataSetSortedFeatures| -> Side { (p.labels.iter().map(|l| l.to_vec()).collect(), p.sorted_feature_columns) };
        v.push((side(a), side(b)));
    }
    Ok(format!("{:?}", v))
}
fn parts_model(d: &Data, qs: &[(usize, f64)]) -> Outcome {
    let ds = d.ds();
    let s = create_dataset_with_sorted_features(&ds);
    let mut v = vec![];
    for &(c, x) in qs {
        let side = |want: bool| -> Side {
            let on = |i: usize| (d.rows[i][c] >= x) == want;
            (
                (0..d.n()).filter(|&i| on(i)).map(|i| d.labels[i].clone()).collect(),
                s.sorted_feature_columns.iter().map(|k| k.iter().filter(|p| on(p.1)).cloned().collect()).collect(),
            )
        };
        v.push((side(true), side(false)));
    }
    Ok(format!("{:?}", v))
}

fn main() {
    let th = thorough();
    let x = th as u32;
    let mut v = vec![];
    let sets: Vec<(&str, Data)> = vec![
        ("twins", data(&[&[1, 2, 3, 4], &[1, 2, 3, 4]], &[&[0, 0, 1, 1]])),
        ("mirror", data(&[&[1, 2, 3, 4], &[4, 3, 2, 1]], &[&[0, 0, 1, 1]])),
        ("triplets", data(&[&[1, 2, 3, 4], &[5, 6, 7, 8], &[1, 2, 3, 4]], &[&[0, 3, 3, 3]])),
        ("last-best", data(&[&[1, 2, 1, 2], &[2, 1, 2, 1], &[1, 1, 2, 2]], &[&[0, 0, 5, 5], &[1, 1, 0, 0]])),
        ("first-best", data(&[&[1, 1, 2, 2], &[2, 1, 2, 1], &[1, 2, 1, 2]], &[&[0, 0, 5, 5]])),
        ("two-of-four", data(&[&[1, 2, 1, 2], &[1, 1, 2, 2], &[3, 3, 9, 9], &[2, 1, 2, 1]], &[&[0, 0, 5, 5]])),
        ("all-alike", data(&[&[1, 2, 2], &[1, 2, 2], &[1, 2, 2], &[1, 2, 2], &[1, 2, 2]], &[&[0, 1, 1]])),
        ("six", data(&[&[1, 1, 1, 1], &[1, 2, 3, 4], &[4, 1, 2, 3], &[1, 2, 3, 4], &[2, 1, 1, 1], &[1, 1, 1, 1]], &[&[2, 0, 0, 0]])),
        ("no-gain", data(&[&[1, 1, 1], &[2, 2, 2], &[3, 3, 3]], &[&[0, 1, 2]])),
        ("equal-labels", data(&[&[1, 2, 3], &[3, 1, 2]], &[&[7, 7, 7]])),
    ];
    for (name, d) in &sets {
        for pool in 1..=4usize {
            let wide = d.c() as u32;
            let (p, q) = match (pool, wide) {
                (1, _) => (plan(2, 3, 4, 3, Some(2), true), true),
                (_, 2) => (plan(pool + 1, 3 + x, 5 + x, 3 + x, Some(3), pool < 4 || th), true),
                (_, 3) => (plan(pool + 1, 2 + x, if pool == 2 { 4 } else { 3 } + x, 2 + x, Some(2), pool < 4 || th), pool < 4),
                _ => (plan(pool + 1, 2, if pool < 4 { 3 } else { 2 } + x, 1 + x, Some(1 + x), pool < 4 || th), pool < 3),
            };
            let (a, b) = (d.clone(), d.clone());
            let worker = pool == 2;
            add(&mut v, format!("split-{}", name), format!("best split of {}, pool of {}", d.describe(), pool), pool, 0, &p, q, move || if worker { inside(|| best(&a)) } else { best(&a) }, move || best_reference(&b));
            let mut qs = vec![];
            for c in [0, d.c() - 1] {
                qs.push((c, 2.0));
            }
            if pool > 1 {
                let (a, b, qa, qb) = (d.clone(), d.clone(), qs.clone(), qs);
                let p = if wide > 3 { plan(pool + 1, 1, 1 + x, 1, Some(1), th) } else { plan(pool + 1, 1 + x, 2 + x, 1 + x, Some(1), th) };
                add(&mut v, format!("partition-{}", name), format!("sorted-column partitions of {}, pool of {}", d.describe(), pool), pool, 0, &p, pool == 2, move || parts(&a, &qa), move || parts_model(&b, &qb));
                let (a, b) = (d.clone(), d.clone());
                let p = if wide > 3 { plan(pool + 1, 1, 1, 1, Some(0), th) } else { plan(pool + 1, 1 + x, 2 + x, 1, Some(1), th) };
                add(&mut v, format!("tree-{}", name), format!("sorted-column tree of {}, pool of {}", d.describe(), pool), pool, 0, &p, false, move || tree(4, &a, 3, false), move || tree(4, &b, 3, false));
            }
        }
    }
    // every number of columns on every small pool, the best column in every third place and last
    for c in 1..=if th { 33 } else { 17usize } {
        for pool in 1..=if th { 12 } else { 8usize } {
            let places: Vec<usize> = (0..c).filter(|p| p % 3 == 0 || *p + 1 == c || th).collect();
            let sets: Vec<Data> = places
                .iter()
                .map(|&p| Data { rows: (0..4).map(|i| (0..c).map(|j| if j == p { i as f64 } else { [0.0, 1.0, 0.0, 1.0][(i + j) % 4] }).collect()).collect(), labels: vec![vec![0.0], vec![0.0], vec![5.0], vec![6.0]] })
                .collect();
            let p = plan(pool + 1, 0, 0, 0, None, false);
            let (a, b) = (sets.clone(), sets.clone());
            let all = |sets: &[Data], f: fn(&Data) -> Outcome| -> Outcome { Ok(sets.iter().map(f).collect::<Result<Vec<_>, _>>()?.join("; ")) };
            add(&mut v, format!("columns{}-split", c), format!("best split of 4 rows, {} columns, the best one in turn at {:?}, pool of {}", c, places, pool), pool, 0, &p, false, move || all(&a, best), move || all(&b, best_reference));
            let (a, b) = (sets[0].clone(), sets[0].clone());
            let qs: Vec<(usize, f64)> = (0..c).map(|j| (j, 1.0)).collect();
            let qb = qs.clone();
            add(&mut v, format!("columns{}-partition", c), format!("sorted-column partitions of 4 rows, {} columns, pool of {}", c, pool), pool, 0, &p, false, move || parts(&a, &qs), move || parts_model(&b, &qb));
        }
    }
    // many columns, many rows
    for (n, c, t, pool) in [(5, 9, 1, 2), (5, 17, 2, 3), (4, 40, 1, 4), (3, 130, 1, 3), (3, 300, 1, 8), (60, 4, 2, 2), (400, 3, 2, 3), (1500, 2, 1, 2), (3000, 3, 1, 4)] {
        let mut d = big(n, c, t, 4, 10);
        for r in d.rows.iter_mut() {
            for j in 0..c {
                if j % 3 == 2 {
                    r[j] = r[j - 1]; // ties between neighbouring columns
                }
            }
        }
        let p = plan(pool + 1, 1, if n > 1000 && !th { 1 } else { 1 + (x & (c < 50) as u32) }, if c < 100 { 1 } else { 0 }, Some(if c < 100 { 1 } else { 0 }), false);
        let (a, b) = (d.clone(), d.clone());
        add(&mut v, format!("split-n{}c{}", n, c), format!("best split of {}, pool of {}", d.describe(), pool), pool, 0, &p, false, move || best(&a), move || best_reference(&b));
        let (a, b) = (d.clone(), d.clone());
        let qs = vec![(c / 2, d.rows[n / 2][c / 2])];
        let qb = qs.clone();
        add(&mut v, format!("partition-n{}c{}", n, c), format!("sorted-column partition of {}, pool of {}", d.describe(), pool), pool, 0, &p, false, move || parts(&a, &qs), move || parts_model(&b, &qb));
    }
    main_run(McCheck {
        id: "C02",
        rule: "a scenario searches the best split, partitions sorted columns or trains a sorted-column tree on a pool of 1 to 8 workers, on data with tied, duplicate and useless columns; every schedule within its bounds is executed on the real code; the result must be that on one worker, which must be what a left-to-right pass over single columns selects (splits) or a plain filter gives (partitions)".into(),
        bounds: "per scenario, from the base schedules run-to-block, round robin and priority orders of the workers: all schedules with up to pN preemptions (run-to-block) and up to dN decisions other than the base's".into(),
        assumptions: vec![
            "sequentially consistent executions; the pool is rayon-core 1.9.1 with its queues, latches and sleeping replaced by ones under the scheduler".into(),
            "in the small sets labels are small integers, so that gains of tied columns are exactly equal and others clearly apart; in the larger ones they are multiples of 0.1, so that another order of summation shows".into(),
        ],
        scenarios: v,
    });
}
