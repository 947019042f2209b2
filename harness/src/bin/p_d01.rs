// D01: CSV ingestion is exact and loses nothing.
use common::data_reader::{get_feature_names, read_csv_data, read_csv_data_multi_target, read_csv_data_one_hot_multi_target};
use vharness::cases::*;
use vharness::engine::*;

/// Spellings with the value they denote.
const SPELL: [(&str, f64); 20] = [
    ("0", 0.0),
    ("1", 1.0),
    ("-1", -1.0),
    ("2.5", 2.5),
    ("0.1", 0.1),
    ("-0.30000000000000004", -0.30000000000000004),
    ("1e3", 1e3),
    ("-2.5E-3", -2.5e-3),
    ("123456789.123456789", 123456789.123456789),
    ("9007199254740993", 9007199254740993.0),
    ("1.7976931348623157e308", 1.7976931348623157e308),
    ("5e-324", 5e-324),
    ("00012.50", 12.5),
    (".5", 0.5),
    ("3.", 3.0),
    ("\"4.25\"", 4.25),
    ("-0", -0.0),
    ("1e-10", 1e-10),
    ("4294967297", 4294967297.0),
    ("0.1000000000000000055511151231257827021181583404541015625", 0.1),
];
const BAD: [&str; 28] = [
    "", "x", "1.2.3", "--1", "1e", "0x10", "1 2", ".", "\"\"", "1;2", "one", "1_000", "#", "#5", "//5", "%5", "5%", "$5", "'5'", "-", "?", "NA", "NULL", "true", "1f", "1e5.5",
    "e5", "\u{ff11}",
];
/// Further spellings of numbers, each also tried in every position of a small file.
const MORE: [(&str, f64); 16] = [
    ("+7", 7.0),
    ("+0.5", 0.5),
    ("1E+2", 100.0),
    ("1e-5", 1e-5),
    ("-.5", -0.5),
    ("-3.", -3.0),
    ("\"-1.5\"", -1.5),
    ("\"1\"", 1.0),
    ("0000", 0.0),
    ("0.30000000000000004", 0.30000000000000004),
    ("0.1000000000000000055", 0.1),
    ("16777217", 16777217.0),
    ("2147483648", 2147483648.0),
    ("18446744073709551617", 18446744073709551617.0),
    ("2.2250738585072014e-308", 2.2250738585072014e-308),
    ("1e-400", 0.0),
];

#[derive(Clone, Copy)]
struct Style {
    crlf: bool,
    last_newline: bool,
    blank: usize, // 0: none, k: blank line before record k-1 (or at the end)
}
impl Style {
    fn all(blanks: usize) -> Vec<Style> {
        let mut v = vec![];
        for crlf in [false, true] {
            for last_newline in [false, true] {
                for blank in 0..blanks {
                    v.push(Style { crlf, last_newline, blank });
                }
            }
        }
        v
    }
}

fn write(path: &str, header: &[String], rows: &[Vec<String>], st: Style) -> String {
    let nl = if st.crlf { "\r\n" } else { "\n" };
    let mut s = header.join(",");
    s.push_str(nl);
    for (i, r) in rows.iter().enumerate() {
        if st.blank == i + 1 {
            s.push_str(nl);
        }
        s.push_str(&r.join(","));
        if i + 1 < rows.len() || st.last_newline {
            s.push_str(nl);
        }
    }
    if st.blank > rows.len() && st.last_newline {
        s.push_str(nl);
    }
    std::fs::write(path, &s).expect("scratch file");
    s
}

fn names(c: usize, v: usize) -> Vec<String> {
    (0..c)
        .map(|j| match (v + j) % 5 {
            0 => format!("f{}", j),
            1 => format!("{}", j * 7),
            2 => format!("sepal length (cm) {}", j),
            3 => "same".to_string(),
            _ => format!("größe {}", j),
        })
        .collect()
}

fn text(rows: &[Vec<usize>]) -> Vec<Vec<String>> {
    rows.iter().map(|r| r.iter().map(|&k| SPELL[k].0.to_string()).collect()).collect()
}
fn vals(rows: &[Vec<usize>]) -> Vec<Vec<f64>> {
    rows.iter().map(|r| r.iter().map(|&k| SPELL[k].1).collect()).collect()
}

fn show(s: &str) -> String {
    if s.len() <= 300 {
        format!("{:?}", s)
    } else {
        format!("{:?}... ({} bytes)", s.chars().take(200).collect::<String>(), s.len())
    }
}

fn first_diff(got: &[Vec<f64>], want: &[Vec<f64>]) -> String {
    if got.len() != want.len() {
        return format!("{} records instead of {}", got.len(), want.len());
    }
    for i in 0..got.len() {
        if got[i] != want[i] {
            return format!("record {} is {:?} instead of {:?}", i, &got[i][..got[i].len().min(12)], &want[i][..want[i].len().min(12)]);
        }
    }
    "equal".into()
}

/// One-file reading: last column is the label.
fn check_one(header: &[String], rows: &[Vec<usize>], st: Style, ctx: &mut Ctx) -> CaseResult {
    let path = format!("{}/one.csv", ctx.scratch);
    let s = write(&path, header, &text(rows), st);
    ctx.describe(|| format!("one file {}", show(&s)));
    let want = vals(rows);
    let c = want[0].len();
    ctx.state({ let mut h = H::new(1); for b in s.bytes() { h.u(b as u64); } h.get() });
    let d = must("read_csv_data", || read_csv_data(&path))?;
    ctx.trans(1);
    let wf: Vec<Vec<f64>> = want.iter().map(|r| r[..c - 1].to_vec()).collect();
    let wl: Vec<f64> = want.iter().map(|r| r[c - 1]).collect();
    if d.features != wf {
        return Err(format!("features: {}", first_diff(&d.features, &wf)));
    }
    if d.labels != wl {
        return Err(format!("labels: {} of them, expected {}; {:?}", d.labels.len(), wl.len(), (0..wl.len()).find(|&i| d.labels.get(i) != Some(&wl[i])).map(|i| (i, d.labels.get(i).cloned(), wl[i]))));
    }
    let n = must("get_feature_names", || get_feature_names(&path))?;
    ctx.trans(1);
    if n != header {
        return Err(format!("header names {:?} instead of {:?}", &n[..n.len().min(8)], &header[..header.len().min(8)]));
    }
    let mut h = H::new(2);
    h.fs(&wl);
    ctx.outcome(h.get());
    ctx.trace();
    Ok(())
}

/// Two-file reading.
fn check_two(f: &[Vec<usize>], l: &[Vec<usize>], st: Style, st2: Style, v: usize, ctx: &mut Ctx) -> CaseResult {
    let pf = format!("{}/f.csv", ctx.scratch);
    let pl = format!("{}/l.csv", ctx.scratch);
    let s = write(&pf, &names(f[0].len(), v), &text(f), st);
    let s2 = write(&pl, &names(l[0].len(), v + 1), &text(l), st2);
    ctx.describe(|| format!("features {} labels {}", show(&s), show(&s2)));
    ctx.state({ let mut h = H::new(2); for b in s.bytes().chain(s2.bytes()) { h.u(b as u64); } h.get() });
    let d = must("read_csv_data_multi_target", || read_csv_data_multi_target(&pf, &pl))?;
    ctx.trans(1);
    let (wf, wl) = (vals(f), vals(l));
    if d.feature_rows != wf {
        return Err(format!("feature rows: {}", first_diff(&d.feature_rows, &wf)));
    }
    if d.labels != wl {
        return Err(format!("labels: {}", first_diff(&d.labels, &wl)));
    }
    let cols: Vec<Vec<f64>> = (0..wf[0].len()).map(|j| wf.iter().map(|r| r[j]).collect()).collect();
    if d.feature_columns != cols {
        return Err(format!("columns are not the transpose of the rows: {}", first_diff(&d.feature_columns, &cols)));
    }
    let mut h = H::new(3);
    for r in &wf {
        h.fs(r);
    }
    ctx.outcome(h.get());
    ctx.trace();
    Ok(())
}

/// A damaged file must not be read.
fn must_fail(s: &str, what: &str, ctx: &mut Ctx) -> CaseResult {
    let p = format!("{}/bad.csv", ctx.scratch);
    let good = format!("{}/good.csv", ctx.scratch);
    std::fs::write(&p, s).expect("scratch file");
    ctx.describe(|| format!("{}: {}", what, show(s)));
    ctx.state({ let mut h = H::new(3); for b in s.bytes() { h.u(b as u64); } h.get() });
    ctx.trans(4);
    if let Ok(d) = guard(|| read_csv_data(&p)) {
        return Err(format!("{}: read_csv_data returned features {:?} labels {:?}", what, d.features, d.labels));
    }
    // a good file with as many records as the damaged one has, and one fewer
    let lines = s.split('\n').filter(|l| !l.trim_end_matches('\r').is_empty()).count();
    for n in [lines.saturating_sub(1), lines.saturating_sub(2)] {
        std::fs::write(&good, "a,b\n".to_string() + &"1,2\n".repeat(n)).expect("scratch file");
        if let Ok(d) = guard(|| read_csv_data_multi_target(&p, &good)) {
            return Err(format!("{}: read_csv_data_multi_target accepted it as features: {:?}", what, d.feature_rows));
        }
        if let Ok(d) = guard(|| read_csv_data_multi_target(&good, &p)) {
            return Err(format!("{}: read_csv_data_multi_target accepted it as labels: {:?}", what, d.labels));
        }
    }
    if let Ok(d) = guard(|| read_csv_data_one_hot_multi_target(&p, 10)) {
        return Err(format!("{}: read_csv_data_one_hot_multi_target returned {:?} {:?}", what, d.feature_rows, d.labels));
    }
    ctx.outcome(7);
    ctx.trace();
    Ok(())
}

fn main() {
    let th = thorough();
    let mut fams = vec![];
    let mut grids = vec![(1usize, 2usize, 20usize, 3usize), (2, 2, 9, 4), (1, 3, 12, 3), (3, 2, 4, 5), (2, 3, 4, 4), (1, 4, 5, 3)];
    if th {
        grids.extend([(2, 2, 20, 4), (1, 3, 20, 3), (3, 2, 6, 5), (2, 3, 6, 4)]);
    }
    for (n, c, a, bl) in grids.clone() {
        let st = Style::all(bl);
        let cells = (a as u64).pow((n * c) as u32);
        // the spelling of every cell, every line style and blank line position
        let styles = if cells > 4000 { 2 } else { st.len() };
        fams.push(Family::new(format!("one-n{}c{}a{}", n, c, a), cells * styles as u64, move |i, ctx| {
            let mut cut = Cut(i);
            let s = cut.take(styles as u64);
            let st = if styles == 2 { st[s * (st.len() - 1)] } else { st[s] };
            let x = digits(cut.0, a as u64, n * c);
            let off = (20 - a) / 2;
            let rows: Vec<Vec<usize>> = (0..n).map(|r| (0..c).map(|j| x[r * c + j] + off).collect()).collect();
            check_one(&names(c, i as usize % 5), &rows, st, ctx)
        }));
    }
    for (n, cf, cl, a) in [(1usize, 1usize, 1usize, 20usize), (1, 2, 2, 6), (2, 1, 1, 7), (2, 2, 1, 4), (3, 1, 1, 3), (1, 1, 3, 7), (2, 1, 2, 4)] {
        let cells = (a as u64).pow((n * (cf + cl)) as u32);
        fams.push(Family::new(format!("two-n{}f{}l{}a{}", n, cf, cl, a), cells * 4, move |i, ctx| {
            let mut cut = Cut(i);
            let s = cut.take(4);
            let x = digits(cut.0, a as u64, n * (cf + cl));
            let off = (20 - a) / 2;
            let f: Vec<Vec<usize>> = (0..n).map(|r| (0..cf).map(|j| x[r * cf + j] + off).collect()).collect();
            let l: Vec<Vec<usize>> = (0..n).map(|r| (0..cl).map(|j| x[n * cf + r * cl + j] + off).collect()).collect();
            let a = Style { crlf: s & 1 == 1, last_newline: s & 2 == 0, blank: 0 };
            let b = Style { crlf: s & 2 == 2, last_newline: s & 1 == 0, blank: 0 };
            check_two(&f, &l, a, b, i as usize % 5, ctx)
        }));
    }
    // files with different numbers of records do not fit together
    fams.push(Family::new("unequal", 13 * 13 * 3 * 3 * 4, |i, ctx| {
        let mut cut = Cut(i);
        let sizes = [0usize, 1, 2, 3, 4, 5, 6, 7, 99, 100, 101, 255, 256];
        let (n, m) = (sizes[cut.take(13)], sizes[cut.take(13)]);
        let (cf, cl) = (1 + cut.take(3), 1 + cut.take(3));
        let s = cut.take(4);
        let st = |x: bool| Style { crlf: x, last_newline: s & 2 == 0, blank: 0 };
        if n == m {
            ctx.skip();
            return Ok(());
        }
        let rows = |n: usize, c: usize| (0..n).map(|r| (0..c).map(|j| (r * 3 + j) % 20).collect::<Vec<usize>>()).collect::<Vec<_>>();
        let (pf, pl) = (format!("{}/f.csv", ctx.scratch), format!("{}/l.csv", ctx.scratch));
        write(&pf, &names(cf, 0), &text(&rows(n, cf)), st(s & 1 == 1));
        write(&pl, &names(cl, 1), &text(&rows(m, cl)), st(s & 1 == 0));
        ctx.describe(|| format!("{} feature records of {} and {} label records of {}, line style {}", n, cf, m, cl, s));
        ctx.state({ let mut h = H::new(11); h.u(i); h.get() });
        ctx.trans(1);
        if let Ok(d) = guard(|| read_csv_data_multi_target(&pf, &pl)) {
            return Err(format!("{} feature records and {} label records were read as {} rows and {} labels", n, m, d.feature_rows.len(), d.labels.len()));
        }
        ctx.outcome(11);
        ctx.trace();
        Ok(())
    }));
    // blank lines in either file must not shift rows against each other
    fams.push(Family::new("two-blank", 4 * 6 * 6 * 4, |i, ctx| {
        let mut cut = Cut(i);
        let n = 1 + cut.take(4);
        let (x, y) = (cut.take(6), cut.take(6));
        let s = cut.take(4);
        let f: Vec<Vec<usize>> = (0..n).map(|r| vec![r * 3 % 20, (r * 5 + 1) % 20]).collect();
        let l: Vec<Vec<usize>> = (0..n).map(|r| vec![(r * 7 + 2) % 20]).collect();
        check_two(&f, &l, Style { crlf: s & 1 == 1, last_newline: true, blank: x }, Style { crlf: s & 2 == 2, last_newline: true, blank: y }, s, ctx)
    }));
    // header names, including quoted separators
    const H: [&str; 12] = ["a", "", "\"a,b\"", "1.5", " padded ", "größe", "\"say \"\"hi\"\"\"", "a", "x:y;z", "#id", "'q'", "tab\tin"];
    const HN: [&str; 12] = ["a", "", "a,b", "1.5", " padded ", "größe", "say \"hi\"", "a", "x:y;z", "#id", "'q'", "tab\tin"];
    fams.push(Family::new("header", 12 * 12 * 12 * 2, |i, ctx| {
        let mut cut = Cut(i);
        let crlf = cut.take(2) == 1;
        let k: Vec<usize> = (0..3).map(|_| cut.take(12)).collect();
        let p = format!("{}/h.csv", ctx.scratch);
        let nl = if crlf { "\r\n" } else { "\n" };
        let s = format!("{}{}1,2,3{}4,5,6{}", k.iter().map(|&x| H[x]).collect::<Vec<_>>().join(","), nl, nl, nl);
        std::fs::write(&p, &s).expect("scratch file");
        ctx.describe(|| show(&s));
        ctx.state({ let mut h = H2(5); for b in s.bytes() { h.u(b as u64); } h.get() });
        let n = must("get_feature_names", || get_feature_names(&p))?;
        ctx.trans(2);
        let w: Vec<String> = k.iter().map(|&x| HN[x].to_string()).collect();
        if n != w {
            return Err(format!("header names {:?} instead of {:?}", n, w));
        }
        let d = must("read_csv_data", || read_csv_data(&p))?;
        if d.features != vec![vec![1.0, 2.0], vec![4.0, 5.0]] || d.labels != vec![3.0, 6.0] {
            return Err(format!("features {:?} labels {:?}", d.features, d.labels));
        }
        ctx.outcome({ let mut h = H2(6); h.u(i); h.get() });
        ctx.trace();
        Ok(())
    }));
    // further spellings, every position, in one- and two-file reading
    for (n, c) in [(1usize, 2usize), (2, 2), (3, 3)] {
        fams.push(Family::new(format!("spell-n{}c{}", n, c), (n * c * MORE.len() * 2) as u64, move |i, ctx| {
            let mut cut = Cut(i);
            let crlf = cut.take(2) == 1;
            let (sp, v) = MORE[cut.take(MORE.len() as u64)];
            let (r, j) = (cut.take(n as u64), cut.take(c as u64));
            let nl = if crlf { "\r\n" } else { "\n" };
            let cell = |a: usize, b: usize| if (a, b) == (r, j) { v } else { (a * 3 + b) as f64 };
            let mut s = (0..c).map(|k| format!("h{}", k)).collect::<Vec<_>>().join(",");
            s.push_str(nl);
            for a in 0..n {
                s.push_str(&(0..c).map(|b| if (a, b) == (r, j) { sp.to_string() } else { format!("{}", cell(a, b)) }).collect::<Vec<_>>().join(","));
                s.push_str(nl);
            }
            let want: Vec<Vec<f64>> = (0..n).map(|a| (0..c).map(|b| cell(a, b)).collect()).collect();
            let p = format!("{}/sp.csv", ctx.scratch);
            std::fs::write(&p, &s).expect("scratch file");
            ctx.describe(|| show(&s));
            ctx.state({ let mut h = H2(8); for b in s.bytes() { h.u(b as u64); } h.get() });
            let one = must("read_csv_data", || read_csv_data(&p))?;
            let two = must("read_csv_data_multi_target", || read_csv_data_multi_target(&p, &p))?;
            ctx.trans(2);
            for a in 0..n {
                if one.features[a] != want[a][..c - 1] || one.labels[a] != want[a][c - 1] || two.feature_rows[a] != want[a] || two.labels[a] != want[a] {
                    return Err(format!("record {} is read as {:?} {:?} / {:?} {:?} instead of {:?}", a, one.features[a], one.labels[a], two.feature_rows[a], two.labels[a], want[a]));
                }
            }
            if one.features.len() != n || two.labels.len() != n {
                return Err(format!("{} and {} records instead of {}", one.features.len(), two.labels.len(), n));
            }
            ctx.outcome({ let mut h = H2(9); h.u(i); h.get() });
            ctx.trace();
            Ok(())
        }));
    }
    // one damaged cell, every position
    for (n, c) in [(1usize, 2usize), (2, 2), (3, 2), (3, 3), (4, 2)] {
        fams.push(Family::new(format!("bad-cell-n{}c{}", n, c), (n * c * BAD.len() * 4) as u64, move |i, ctx| {
            let mut cut = Cut(i);
            let crlf = cut.take(2) == 1;
            let last = cut.take(2) == 1;
            let bad = BAD[cut.take(BAD.len() as u64)];
            let (r, j) = (cut.take(n as u64), cut.take(c as u64));
            let nl = if crlf { "\r\n" } else { "\n" };
            let mut s = (0..c).map(|k| format!("h{}", k)).collect::<Vec<_>>().join(",");
            s.push_str(nl);
            for row in 0..n {
                let line: Vec<String> = (0..c).map(|k| if row == r && k == j { bad.to_string() } else { format!("{}", row + k) }).collect();
                s.push_str(&line.join(","));
                if row + 1 < n || last {
                    s.push_str(nl);
                }
            }
            must_fail(&s, &format!("cell {:?} in record {} column {}", bad, r, j), ctx)
        }));
    }
    // one record with a different number of fields, every position
    for c in 2..=4usize {
        for n in 1..=4usize {
            fams.push(Family::new(format!("ragged-n{}c{}", n, c), (n * 6 * 2) as u64, move |i, ctx| {
                let mut cut = Cut(i);
                let crlf = cut.take(2) == 1;
                let r = cut.take(n as u64);
                let width = cut.take(6) + 1;
                if width == c {
                    return Ok(());
                }
                let nl = if crlf { "\r\n" } else { "\n" };
                let mut s = (0..c).map(|k| format!("h{}", k)).collect::<Vec<_>>().join(",");
                s.push_str(nl);
                for row in 0..n {
                    let w = if row == r { width } else { c };
                    s.push_str(&(0..w).map(|k| format!("{}", row + k)).collect::<Vec<_>>().join(","));
                    s.push_str(nl);
                }
                must_fail(&s, &format!("record {} has {} fields instead of {}", r, width, c), ctx)
            }));
        }
    }
    // damage far into a large file
    fams.push(Family::new("bad-late", 3 * 4 * 3, |i, ctx| {
        let mut cut = Cut(i);
        let n = [100usize, 1000, 20_000][cut.take(3)];
        let pos = [0usize, n / 2, n - 2, n - 1][cut.take(4)];
        let kind = cut.take(3);
        let mut s = String::from("a,b,c\n");
        for r in 0..n {
            if r == pos {
                s.push_str(["1,oops,3\n", "1,2\n", "1,2,3,4\n"][kind]);
            } else {
                s.push_str(&format!("{},{},{}\n", r % 10, r, r % 3));
            }
        }
        must_fail(&s, &format!("record {} of {}", pos, n), ctx)
    }).chunk(1));
    // the repository's data files, against this crate's own reader
    fams.push(Family::new("files", 9, |i, ctx| {
        let dir = "/repo/common/data-files/";
        ctx.describe(|| format!("data file {}", i));
        let (d, got) = if i < 8 {
            let Some(d) = class_file(i as usize) else { ctx.skip(); return Ok(()) };
            let (f, k) = CLASS_FILES[i as usize];
            (d, must("read_csv_data_one_hot_multi_target", || read_csv_data_one_hot_multi_target(&format!("{}{}", dir, f), k))?)
        } else {
            let Some(d) = mt_file(0) else { ctx.skip(); return Ok(()) };
            (d, must("read_csv_data_multi_target", || read_csv_data_multi_target(&format!("{}{}", dir, MT_FILES.0), &format!("{}{}", dir, MT_FILES.1)))?)
        };
        ctx.state(d.hash(44));
        ctx.trans(d.n() as u64);
        if got.feature_rows != d.rows || got.labels != d.labels || got.feature_columns != d.columns() {
            return Err("the data read differ from the file".into());
        }
        ctx.outcome(d.hash(45));
        ctx.trace();
        Ok(())
    }).chunk(1));
    // sizes around buffer and counter limits
    let sizes: Vec<(usize, usize)> = vec![(10, 3), (100, 2), (255, 2), (256, 2), (257, 3), (1000, 5), (4096, 2), (5, 300), (3, 5000), (1025, 40), (20_000, 3), (66_000, 2)];
    fams.push(Family::new("large-one", sizes.len() as u64 * 4, {
        let sizes = sizes.clone();
        move |i, ctx| {
            let mut cut = Cut(i);
            let (n, c) = sizes[cut.take(sizes.len() as u64)];
            let s = cut.take(4);
            let rows: Vec<Vec<usize>> = (0..n).map(|r| (0..c).map(|j| (r * 7 + j * 3 + r / 11) % 20).collect()).collect();
            check_one(&names(c, s), &rows, Style { crlf: s & 1 == 1, last_newline: s & 2 == 0, blank: if s == 3 { n / 2 } else { 0 } }, ctx)
        }
    }).chunk(1));
    fams.push(Family::new("large-two", sizes.len() as u64 * 2, move |i, ctx| {
        let mut cut = Cut(i);
        let (n, c) = sizes[cut.take(sizes.len() as u64)];
        let s = cut.take(2);
        let rows: Vec<Vec<usize>> = (0..n).map(|r| (0..c).map(|j| (r * 7 + j * 3 + r / 11) % 20).collect()).collect();
        let lab: Vec<Vec<usize>> = (0..n).map(|r| (0..(1 + s * 9)).map(|j| (r * 3 + j + r / 7) % 20).collect()).collect();
        let st = Style { crlf: false, last_newline: true, blank: 0 };
        check_two(&rows, &lab, st, st, s, ctx)
    }).chunk(1));
    main_run(Check {
        id: "D01",
        level: "model_checking",
        rule: "every assignment of number spellings to the cells, every line style and blank-line position, one- and two-file reading; every damaged cell and every ragged record position must make the read fail".into(),
        assumptions: vec!["spaces around numbers, inf/nan spellings, files without records and feature/label files of different length are left unspecified".into()],
        families: fams,
        pool: true,
        bounds: "complete: up to 3x2 / 2x3 cells over up to 20 spellings; large files up to 66000 records and 5000 columns".into(),
    });
}

#[allow(non_snake_case)]
fn H2(tag: u64) -> vharness::engine::H {
    vharness::engine::H::new(tag)
}
