// D02: class labels are one-hot encoded exactly.
use common::data_reader::read_csv_data_one_hot_multi_target;
use vharness::cases::*;
use vharness::engine::*;
use vharness::model::*;

fn feature(r: usize, j: usize) -> f64 {
    r as f64 * 0.5 - j as f64
}

/// Labels that are no class; in a case, ODD0 + i stands for the i-th of them.
const ODD: [&str; 16] = ["-1", "-1.0", "-0.5", "0.5", "1.5", "0.9999999999", "1e-9", "-1e-300", "2.25", "NaN", "inf", "-inf", "1e300", "-2", "1e19", "-4294967295"];
const ODD0: usize = 1 << 40;

fn check(classes: &[usize], k: usize, c: usize, spell: usize, ctx: &mut Ctx) -> CaseResult {
    let p = format!("{}/k.csv", ctx.scratch);
    let mut s = (0..=c).map(|j| format!("h{}", j)).collect::<Vec<_>>().join(",");
    s.push('\n');
    for (r, cl) in classes.iter().enumerate() {
        for j in 0..c {
            s.push_str(&format!("{},", feature(r, j)));
        }
        s.push_str(&match (spell + r) % 6 {
            _ if *cl >= ODD0 => format!("{}\n", ODD[cl - ODD0]),
            0 => format!("{}\n", cl),
            1 => format!("{}.0\n", cl),
            2 => format!("{}e0\n", cl),
            3 => format!("0{}.00\n", cl),
            4 if *cl == 0 => "-0\n".to_string(),
            5 if *cl == 0 => "-0.0\n".to_string(),
            4 => format!("+{}\n", cl),
            _ => format!("{}.\n", cl),
        });
    }
    std::fs::write(&p, &s).expect("scratch file");
    ctx.describe(|| if s.len() < 300 { format!("{:?} read as {} classes", s, k) } else { format!("{} rows read as {} classes", classes.len(), k) });
    ctx.state({ let mut h = H::new(2); h.u(k as u64); for b in s.bytes() { h.u(b as u64); } h.get() });
    ctx.trans(1);
    let r = guard(|| read_csv_data_one_hot_multi_target(&p, k));
    let bad = classes.iter().position(|&x| x >= k);
    match (r, bad) {
        (Err(_), Some(_)) => {
            ctx.outcome(1);
            ctx.trace();
            Ok(())
        }
        (Ok(d), Some(b)) => Err(format!("label {} of row {} is none of {} classes but was stored as {:?}", if classes[b] >= ODD0 { ODD[classes[b] - ODD0].to_string() } else { classes[b].to_string() }, b, k, d.labels.get(b))),
        (Err(e), None) => Err(format!("read_csv_data_one_hot_multi_target panicked: {}", e)),
        (Ok(d), None) => {
            if d.labels.len() != classes.len() || d.feature_rows.len() != classes.len() {
                return Err(format!("{} rows and {} labels from {} records", d.feature_rows.len(), d.labels.len(), classes.len()));
            }
            for (r, &cl) in classes.iter().enumerate() {
                if d.labels[r] != onehot(cl, k) {
                    return Err(format!("row {} with label {} of {} classes became {:?}", r, cl, k, &d.labels[r][..d.labels[r].len().min(20)]));
                }
                let f: Vec<f64> = (0..c).map(|j| feature(r, j)).collect();
                if d.feature_rows[r] != f {
                    return Err(format!("row {} has features {:?} instead of {:?}", r, d.feature_rows[r], f));
                }
            }
            let cols: Vec<Vec<f64>> = (0..c).map(|j| (0..classes.len()).map(|r| feature(r, j)).collect()).collect();
            if d.feature_columns != cols {
                return Err("columns are not the transpose of the rows".into());
            }
            let mut h = H::new(3);
            for &c in classes {
                h.u(c as u64);
            }
            ctx.outcome(h.get());
            ctx.trace();
            Ok(())
        }
    }
}

fn main() {
    let th = thorough();
    let mut fams = vec![];
    let mut g = vec![(1usize, 5usize), (2, 7), (3, 6), (4, 5), (5, 4), (6, 4)];
    if th {
        g.extend([(2, 10), (3, 8), (4, 6), (5, 6), (7, 5)]);
    }
    for (k, nmax) in g {
        for n in 1..=nmax {
            // classes 0..K plus two out-of-range ones
            let a = k as u64 + 2;
            fams.push(Family::new(format!("K{}n{}", k, n), a.pow(n as u32), move |i, ctx| {
                let mut x = digits(i, a, n);
                for v in x.iter_mut() {
                    if *v == k + 1 {
                        *v = k + 100;
                    }
                }
                check(&x, k, 1 + (i % 2) as usize, (i % 6) as usize, ctx)
            }));
        }
    }
    // labels that are no class, alone, among good ones and together
    for k in 1..=if th { 8 } else { 5 } {
        for n in 1..=3usize {
            let a = (k + ODD.len()) as u64;
            fams.push(Family::new(format!("odd-K{}n{}", k, n), a.pow(n as u32), move |i, ctx| {
                let x: Vec<usize> = digits(i, a, n).into_iter().map(|v| if v < k { v } else { ODD0 + v - k }).collect();
                check(&x, k, 1, 0, ctx)
            }));
        }
    }
    fams.push(Family::new("odd-late", (ODD.len() * 5 * 3) as u64, |i, ctx| {
        let mut cut = Cut(i);
        let o = cut.take(ODD.len() as u64);
        let n = [10usize, 64, 100, 257, 1000][cut.take(5)];
        let at = [0, n / 2, n - 1][cut.take(3)];
        let mut x: Vec<usize> = (0..n).map(|r| r * 5 % 3).collect();
        x[at] = ODD0 + o;
        check(&x, 3, 2, 0, ctx)
    }));
    fams.push(Family::new("structured", 10 * 14 * 3, |i, ctx| {
        let mut cut = Cut(i);
        let k = [2usize, 3, 9, 10, 12, 33, 100, 129, 257, 300][cut.take(10)];
        let n = [1usize, 2, 10, 99, 255, 256, 257, 1000, 5000, 4097, 10_001, 20_001, 65_537, 100_001][cut.take(14)];
        if n > 10_000 && k > 12 {
            ctx.skip();
            return Ok(());
        }
        let v = cut.take(3);
        let mut x: Vec<usize> = (0..n).map(|r| (r * 7 + r / 5) % k).collect();
        match v {
            1 => x[n - 1] = k - 1,
            2 => x[n / 2] = k,
            _ => {}
        }
        check(&x, k, 2, v, ctx)
    }).chunk(2));
    // every class of every K in one file
    fams.push(Family::new("every-class", 320, |i, ctx| {
        let k = i as usize + 1;
        check(&(0..k).rev().collect::<Vec<_>>(), k, 1, 0, ctx)
    }).chunk(4));
    main_run(Check {
        id: "D02",
        level: "model_checking",
        rule: "every sequence of labels 0..K plus two out-of-range labels, and every sequence of up to 3 labels over the classes and 16 labels that are no class (negative, fractional, infinite, not a number), for every K and length in the bounds, through a written file".into(),
        assumptions: vec!["labels are spelled as decimal numbers".into()],
        families: fams,
        pool: true,
        bounds: "complete: K<=6 and up to 7 rows (shorter for larger K); every class of every K<=320; structured up to 100001 rows".into(),
    });
}
