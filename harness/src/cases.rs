//! Case spaces: complete small data sets (every weak ordering of every feature column, every label
//! assignment from an alphabet) and structured larger ones.

use crate::model::Data;
use std::rc::Rc;

/// All weak orderings of n rows, as dense rank vectors (1, 3, 13, 75, 541 of them for n = 1..5).
pub fn weak_orders(n: usize) -> Rc<Vec<Vec<u8>>> {
    let mut out = vec![];
    let total = (n as u64).pow(n as u32);
    for code in 0..total {
        let mut x = code;
        let mut v = vec![0u8; n];
        for d in v.iter_mut() {
            *d = (x % n as u64) as u8;
            x /= n as u64;
        }
        let m = *v.iter().max().unwrap();
        if (0..=m).all(|k| v.contains(&k)) {
            out.push(v);
        }
    }
    Rc::new(out)
}

/// Order-preserving value maps for ranks 0..: plain, with infinities, tiny, neighbours, signed zero.
pub const VMAPS: [[f64; 5]; 10] = [
    [1.0, 2.0, 3.0, 4.0, 5.0],
    [f64::NEG_INFINITY, -1.5, 0.0, 7.25, f64::INFINITY],
    [-3e-300, -1e-310, 0.0, 5e-324, 1e-300],
    [1.0, 1.0000000000000002, 1.0000000000000004, 1.0000000000000007, 1.0000000000000009],
    [-2.0, -1.0, -0.0, 1e9, 1e300],
    [0.1, 0.2, 0.30000000000000004, 0.4, 1e6],
    // in these two the highest rank is infinite
    [-1.5, 0.0, 7.25, 1e300, 1.7e308],
    [f64::NEG_INFINITY, -1.5, 0.0, 7.25, 1e300],
    // in these two the zeros of one column have both signs
    [-1.5, 0.0, 3.0, 1e9, 1e10],
    [0.0, 1.0, 2.0, 3.0, 4.0],
];
fn value(vm: usize, rank: u8, ord: &[u8], row: usize) -> f64 {
    if vm >= 8 {
        let x = VMAPS[vm][rank as usize];
        return if x == 0.0 && row % 2 == 1 { -0.0 } else { x };
    }
    if vm >= 6 && ord.iter().all(|o| *o <= rank) {
        f64::INFINITY
    } else {
        VMAPS[vm][rank as usize]
    }
}

pub fn digits(mut x: u64, base: u64, len: usize) -> Vec<usize> {
    (0..len)
        .map(|_| {
            let d = x % base;
            x /= base;
            d as usize
        })
        .collect()
}

/// Splits an index into parts by radices.
pub struct Cut(pub u64);
impl Cut {
    pub fn take(&mut self, radix: u64) -> usize {
        let d = self.0 % radix;
        self.0 /= radix;
        d as usize
    }
}

#[derive(Clone)]
pub struct Space {
    pub n: usize,
    pub c: usize,
    pub t: usize,
    pub ords: Rc<Vec<Vec<u8>>>,
    pub vmaps: Vec<usize>,
    pub labels: Vec<f64>,
}
impl Space {
    pub fn new(n: usize, c: usize, t: usize, vmaps: &[usize], labels: &[f64]) -> Space {
        Space {
            n,
            c,
            t,
            ords: weak_orders(n),
            vmaps: vmaps.to_vec(),
            labels: labels.to_vec(),
        }
    }
    pub fn name(&self) -> String {
        format!(
            "n{}c{}t{}v{}l{}",
            self.n,
            self.c,
            self.t,
            self.vmaps.len(),
            self.labels.len()
        )
    }
    pub fn count(&self) -> u64 {
        (self.ords.len() as u64).pow(self.c as u32)
            * self.vmaps.len() as u64
            * (self.labels.len() as u64).pow((self.n * self.t) as u32)
    }
    pub fn get(&self, idx: u64) -> Data {
        let mut cut = Cut(idx);
        let vm = self.vmaps[cut.take(self.vmaps.len() as u64)];
        let mut rows = vec![vec![0.0; self.c]; self.n];
        for j in 0..self.c {
            let o = &self.ords[cut.take(self.ords.len() as u64)];
            for i in 0..self.n {
                rows[i][j] = value(vm, o[i], o, i);
            }
        }
        let mut labels = vec![vec![0.0; self.t]; self.n];
        for i in 0..self.n {
            for k in 0..self.t {
                labels[i][k] = self.labels[cut.take(self.labels.len() as u64)];
            }
        }
        Data { rows, labels }
    }
}

/// Same, with one-hot class labels.
#[derive(Clone)]
pub struct ClassSpace {
    pub n: usize,
    pub c: usize,
    pub k: usize,
    pub ords: Rc<Vec<Vec<u8>>>,
    pub vmaps: Vec<usize>,
}
impl ClassSpace {
    pub fn new(n: usize, c: usize, k: usize, vmaps: &[usize]) -> ClassSpace {
        ClassSpace {
            n,
            c,
            k,
            ords: weak_orders(n),
            vmaps: vmaps.to_vec(),
        }
    }
    pub fn name(&self) -> String {
        format!("n{}c{}K{}v{}", self.n, self.c, self.k, self.vmaps.len())
    }
    pub fn count(&self) -> u64 {
        (self.ords.len() as u64).pow(self.c as u32)
            * self.vmaps.len() as u64
            * (self.k as u64).pow(self.n as u32)
    }
    pub fn get(&self, idx: u64) -> (Data, Vec<usize>) {
        let mut cut = Cut(idx);
        let vm = self.vmaps[cut.take(self.vmaps.len() as u64)];
        let mut rows = vec![vec![0.0; self.c]; self.n];
        for j in 0..self.c {
            let o = &self.ords[cut.take(self.ords.len() as u64)];
            for i in 0..self.n {
                rows[i][j] = value(vm, o[i], o, i);
            }
        }
        let classes: Vec<usize> = (0..self.n).map(|_| cut.take(self.k as u64)).collect();
        let labels = classes
            .iter()
            .map(|&k| crate::model::onehot(k, self.k))
            .collect();
        (Data { rows, labels }, classes)
    }
}

// ------------------------------------------------------------------ structured data

pub const NPAT: usize = 16;
/// Deterministic integer-valued patterns over row i of n; `s` shifts/varies them per column.
pub fn pattern(p: usize, i: usize, n: usize, s: usize) -> f64 {
    let i64_ = i as i64;
    let n64 = n as i64;
    let s64 = s as i64;
    (match p % NPAT {
        0 => i64_ + s64,
        1 => n64 - 1 - i64_ - s64,
        2 => i64_ / (2 + s64 % 3),
        3 => (i64_ + s64) % 2,
        4 => (7 * i64_ + 3 * s64) % n64.max(1),
        5 => 4 + s64,
        6 => (i64_ + s64) % 3,
        7 => (i64_ * i64_ + s64) % 11,
        8 => {
            if i64_ == s64 % n64.max(1) {
                1
            } else {
                0
            }
        }
        9 => {
            if i64_ < n64 / 2 {
                0
            } else {
                10
            }
        }
        10 => (i64_ * 37 + s64 * 11) % 101,
        11 => -(i64_ % 5) + s64,
        12 => {
            if i64_ % 10 == s64 % 10 {
                3
            } else {
                i64_ % 4
            }
        }
        13 => (i64_ * (n64 - i64_)) % 17 + s64,
        14 => (i64_ * 13 + s64 * 5) % 29,
        _ => (i64_ / 4) * 2 - (i64_ % 4),
    }) as f64
}

pub fn all_pats() -> Vec<usize> {
    (0..NPAT).collect()
}
/// Small spaces whose labels differ by little, so that candidate splits gain nearly the same.
pub fn near_spaces() -> Vec<Space> {
    let l = [0.0, 1.0, 1.00001, 1.0000001, 1.000000001, -1.0];
    vec![
        Space::new(3, 1, 1, &[0], &l),
        Space::new(3, 2, 1, &[0], &l),
        Space::new(4, 1, 1, &[0], &l),
        Space::new(3, 1, 2, &[0], &[0.0, 1.0, 1.0000001]),
        Space::new(2, 2, 2, &[0], &[0.0, 1.0, 1.0000001, 1.000000001]),
    ]
}

#[derive(Clone, Debug)]
pub struct Big {
    pub n: usize,
    pub c: usize,
    pub t: usize,
    pub fp: usize,
    pub lp: usize,
    pub scale: f64,
    pub offset: f64,
}
impl Big {
    pub fn data(&self) -> Data {
        let rows = (0..self.n)
            .map(|i| {
                (0..self.c)
                    .map(|j| pattern(self.fp + j, i, self.n, j) * 0.5)
                    .collect()
            })
            .collect();
        let labels = (0..self.n)
            .map(|i| {
                (0..self.t)
                    .map(|k| pattern(self.lp + k, i, self.n, k) * self.scale + self.offset)
                    .collect()
            })
            .collect();
        Data { rows, labels }
    }
    pub fn classes(&self, k: usize) -> (Data, Vec<usize>) {
        let d = self.data();
        let cl: Vec<usize> = (0..self.n)
            .map(|i| (pattern(self.lp, i, self.n, 1).abs() as usize) % k)
            .collect();
        let labels = cl.iter().map(|&c| crate::model::onehot(c, k)).collect();
        (
            Data {
                rows: d.rows,
                labels,
            },
            cl,
        )
    }
}

/// A list of structured data sets: every combination of the given sizes and all patterns.
pub fn bigs(
    sizes: &[(usize, usize, usize)],
    fps: &[usize],
    lps: &[usize],
    scales: &[(f64, f64)],
) -> Vec<Big> {
    let mut v = vec![];
    for &(n, c, t) in sizes {
        for &fp in fps {
            for &lp in lps {
                for &(scale, offset) in scales {
                    v.push(Big {
                        n,
                        c,
                        t,
                        fp,
                        lp,
                        scale,
                        offset,
                    });
                }
            }
        }
    }
    v
}

// ------------------------------------------------------------------ the repository's data files

fn table(file: &str) -> Option<Vec<Vec<f64>>> {
    let s = std::fs::read_to_string(format!("/repo/common/data-files/{}", file)).ok()?;
    s.lines()
        .skip(1)
        .filter(|l| !l.is_empty())
        .map(|l| l.split(',').map(|x| x.trim_matches('"').parse().ok()).collect())
        .collect()
}
/// Classification files: name, classes.
pub const CLASS_FILES: [(&str, usize); 8] = [
    ("synthetic_1.csv", 2),
    ("iris.csv", 3),
    ("iris2.csv", 3),
    ("iris_test.csv", 3),
    ("wine_train.csv", 3),
    ("wine_test.csv", 3),
    ("digits_test.csv", 10),
    ("digits_train.csv", 10),
];
pub const MT_FILES: (&str, &str) = ("multi-target/features_test_mt.csv", "multi-target/labels_test_mt.csv");
/// A classification file by this module's own reader; None when it is absent or not a table of
/// numbers with class labels below k.
pub fn class_file(i: usize) -> Option<Data> {
    let (f, k) = CLASS_FILES[i];
    let mut t = table(f)?;
    let mut labels = vec![];
    for r in t.iter_mut() {
        let y = r.pop()?;
        if !(y >= 0.0 && y < k as f64 && y.fract() == 0.0) {
            return None;
        }
        labels.push(crate::model::onehot(y as usize, k));
    }
    let c = t.first()?.len();
    (c > 0 && t.iter().all(|r| r.len() == c)).then_some(Data { rows: t, labels })
}
/// The first n rows of the two-file data set (0: all).
pub fn mt_file(n: usize) -> Option<Data> {
    let mut rows = table(MT_FILES.0)?;
    let mut labels = table(MT_FILES.1)?;
    if n > 0 {
        rows.truncate(n);
        labels.truncate(n);
    }
    (rows.len() == labels.len() && !rows.is_empty()).then_some(Data { rows, labels })
}
/// Data set i of the repository's files: the eight classification files, then the two-file set
/// cut at 100, 1000 and all rows.
pub const REAL: u64 = 11;
pub fn real(i: u64) -> Option<Data> {
    match i {
        0..=7 => class_file(i as usize),
        8 => mt_file(100),
        9 => mt_file(1000),
        _ => mt_file(0),
    }
}

// ------------------------------------------------------------------ every size in turn

/// Every number up to `dense` and those around round numbers beyond.
pub fn counts(max: usize, dense: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=dense).collect();
    for m in [99usize, 100, 127, 128, 199, 200, 255, 256, 299, 300, 499, 500, 511, 512, 999, 1000, 1023, 1024, 2047, 2048, 4095, 4096, 9999, 10_000] {
        v.push(m);
        v.push(m + 1);
    }
    v.sort_unstable();
    v.dedup();
    v.retain(|x| *x <= max);
    v
}
/// Tables in which one dimension (rows, columns, targets) takes every size of `counts` while the
/// others stay small; what the labels depend on lies at the front, in the middle and at the end.
/// Numbers of rows just past those at which code likes to change its ways.
pub const HUGE: [usize; 8] = [2049, 4097, 5001, 8193, 10_001, 20_001, 65_537, 100_001];
pub struct Sizes(Vec<(u8, usize, u8)>);
impl Sizes {
    pub fn new(rows: usize, cols: usize, targets: usize, dense: usize) -> Sizes {
        let mut v = vec![];
        for (dim, max) in [(0u8, rows), (1, cols), (2, targets)] {
            for n in counts(max, dense) {
                for k in 0..4 {
                    v.push((dim, n, k));
                }
            }
        }
        Sizes(v)
    }
    /// Only numbers of rows just past those at which code likes to change its ways.
    pub fn huge() -> Sizes {
        let mut v = vec![];
        for &n in &HUGE {
            for k in 0..4 {
                v.push((0, n, k));
            }
        }
        Sizes(v)
    }
    pub fn count(&self) -> u64 {
        self.0.len() as u64
    }
    fn place(len: usize, k: u8) -> usize {
        match k {
            0 => 0,
            1 => len / 2,
            _ => len - 1,
        }
    }
    pub fn get(&self, i: u64) -> Data {
        let (dim, len, k) = self.0[i as usize];
        let p = Sizes::place(len, k);
        match dim {
            0 => {
                // one special row, or (k = 3) a pattern
                let rows = (0..len).map(|r| vec![((r * 7 + 3) % len) as f64, (r / 3) as f64]).collect();
                let labels = (0..len)
                    .map(|r| vec![if k == 3 { pattern(10, r, len, 1) } else if r == p { 25.0 } else { (r % 2) as f64 }])
                    .collect();
                Data { rows, labels }
            }
            1 => {
                let n = 7;
                let rows = (0..n)
                    .map(|r| (0..len).map(|c| if c == p { ((r * 3 + 1) % n) as f64 } else if k == 3 { pattern(c, r, n, c) } else { ((r + c) % 2) as f64 }).collect())
                    .collect();
                let labels = (0..n).map(|r| vec![(((r * 3 + 1) % n) as f64 - 2.5).powi(2) + if (r * 3 + 1) % n > 4 { 20.0 } else { 0.0 }]).collect();
                Data { rows, labels }
            }
            _ => {
                let n = 7;
                let rows = (0..n).map(|r| vec![((r * 3 + 1) % n) as f64, (r % 3) as f64]).collect();
                let labels = (0..n)
                    .map(|r| (0..len).map(|t| if t == p { (((r * 3 + 1) % n) as f64).powi(2) } else if k == 3 { pattern(t, r, n, t) } else { ((r + t) % 2) as f64 * 0.25 }).collect())
                    .collect();
                Data { rows, labels }
            }
        }
    }
    /// The same with class labels (two classes, or as many as there are targets).
    pub fn class(&self, i: u64) -> (Data, Vec<usize>) {
        let (dim, len, k) = self.0[i as usize];
        let d = self.get(i);
        let (classes, kk): (Vec<usize>, usize) = match dim {
            0 => {
                let p = Sizes::place(len, k);
                ((0..len).map(|r| if k == 3 { (r * 5 / 3) % 3 } else { (r == p) as usize + (r % 7 == 0) as usize }).collect(), 3)
            }
            1 => (d.labels.iter().map(|y| (y[0] > 10.0) as usize).collect(), 2),
            _ => {
                let kk = len;
                let p = Sizes::place(len, k);
                ((0..7).map(|r| if r % 3 == 0 { p } else { (r * (kk / 3 + 1) + k as usize) % kk }).collect(), kk)
            }
        };
        let labels = classes.iter().map(|&c| crate::model::onehot(c, kk)).collect();
        (Data { rows: d.rows, labels }, classes)
    }
}

// ------------------------------------------------------------------ every combination of coarse sizes

/// The complete product of coarse sizes (rows, columns, targets) with level limits, iterations and
/// learning rates, up to a bound on their product: what needs two things to be large at once.
pub struct Mix(Vec<(Big, u32, u32, f64, bool)>);
impl Mix {
    pub fn new(levels: &[u32], iters: &[u32], lrs: &[f64], cap: u64) -> Mix {
        let mut v = vec![];
        let both = crate::engine::thorough();
        for n in [1usize, 2, 3, 7, 20, 70, 150, 300, 1100] {
            for c in [1usize, 2, 3, 4, 6, 12, 30] {
                for t in [1usize, 2, 3, 4, 6, 12, 30] {
                    for &l in levels {
                        for &it in iters {
                            for (k, &lr) in lrs.iter().enumerate() {
                                let cost = (n * c * t) as u64 * it.max(1) as u64 * (l as u64).min(6).max(1);
                                if cost > cap * if both { 8 } else { 1 } {
                                    continue;
                                }
                                let x = n + 3 * c + 5 * t + 7 * l as usize + 11 * it as usize + k;
                                let (fp, lp) = [(4, 10), (14, 7), (10, 14), (0, 10), (7, 4)][x % 5];
                                let (scale, offset) = [(1.0, 0.0), (0.3, -7.0)][x / 5 % 2];
                                let big = Big { n, c, t, fp, lp, scale, offset };
                                for mt in [false, true] {
                                    if both || mt == (x / 3 % 2 == 1) {
                                        v.push((big.clone(), l, it, lr, mt));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        Mix(v)
    }
    pub fn count(&self) -> u64 {
        self.0.len() as u64
    }
    /// (data, levels, iterations, learning rate, multi-threaded)
    pub fn get(&self, i: u64) -> (Data, u32, u32, f64, bool) {
        let (b, l, it, lr, mt) = &self.0[i as usize];
        (b.data(), *l, *it, *lr, *mt)
    }
    /// The same with class labels: at least two classes.
    pub fn class(&self, i: u64) -> (Data, Vec<usize>, u32, u32, f64, bool) {
        let (b, l, it, lr, mt) = &self.0[i as usize];
        let (d, c) = b.classes(b.t.max(2));
        (d, c, *l, *it, *lr, *mt)
    }
}
pub const MIX_LEVELS: [u32; 6] = [0, 1, 2, 4, 9, 40];
pub const MIX_ITERS: [u32; 7] = [0, 1, 2, 6, 40, 110, 270];

// ------------------------------------------------------------------ deep trees

/// Data sets whose trees are as deep as they have rows: one column per row that separates it, or
/// one column and labels that double from row to row.
pub struct Chains(Vec<(usize, u8)>);
impl Chains {
    pub fn new(wide: usize, long: usize) -> Chains {
        let mut v = vec![];
        for n in [2usize, 3, 5, 9, 17, 33, 64, 65, 100, 129, 150, 257, 300, 450, 490] {
            for var in 0..4u8 {
                if n <= if var < 2 { wide } else { long } {
                    v.push((n, var));
                }
            }
        }
        Chains(v)
    }
    pub fn count(&self) -> u64 {
        self.0.len() as u64
    }
    pub fn get(&self, i: u64) -> Data {
        let (n, var) = self.0[i as usize];
        let rows = (0..n)
            .map(|r| match var {
                0 => (0..n).map(|c| (c == r) as u8 as f64).collect(),
                1 => (0..n).map(|c| (c != n - 1 - r) as u8 as f64).collect(),
                2 => vec![r as f64],
                _ => vec![-(r as f64)],
            })
            .collect();
        let labels = (0..n).map(|r| if var < 2 { vec![r as f64, 1.0] } else { vec![2f64.powi(r as i32), 0.0] }).collect();
        Data { rows, labels }
    }
    /// The same with every other row in the second class.
    pub fn class(&self, i: u64) -> (Data, Vec<usize>) {
        let d = self.get(i);
        let c: Vec<usize> = (0..d.n()).map(|r| r % 2).collect();
        let labels = c.iter().map(|&x| crate::model::onehot(x, 2)).collect();
        (Data { rows: d.rows, labels }, c)
    }
}

// ------------------------------------------------------------------ twin columns and magnitudes

/// Data sets that the others do not hold: neighbouring columns that are equal except at one place
/// in the middle, and every magnitude of labels with every magnitude of features.
pub struct Extras(Vec<(u8, usize, usize, u8)>);
const LSCALE: [(f64, f64); 10] = [(1e-3, 0.0), (1e-6, 0.0), (1e-9, 0.0), (1e-12, 0.0), (1e-60, 0.0), (1e9, 0.0), (1e15, 0.0), (1e100, 0.0), (1e-5, 1.0), (1e-3, 1e3)];
impl Extras {
    pub fn new() -> Extras {
        let mut v = vec![];
        let th = crate::engine::thorough();
        let mut ns: Vec<usize> = (2..=12).chain([16, 17, 20, 33]).collect();
        if th {
            ns.extend(13..=40);
            ns.extend([64, 65, 100]);
            ns.sort_unstable();
            ns.dedup();
        }
        for n in ns {
            for p in 0..n {
                for var in 0..8 {
                    v.push((0u8, n, p, var));
                }
            }
        }
        for n in [2usize, 3, 5, 9, 20] {
            for s in 0..LSCALE.len() {
                for var in 0..16 {
                    v.push((1, n, s, var));
                }
            }
        }
        Extras(v)
    }
    pub fn count(&self) -> u64 {
        self.0.len() as u64
    }
    /// The class of every row in the twins (0 or 1), else a pattern's.
    fn row(&self, i: u64) -> (Vec<Vec<f64>>, Vec<Vec<f64>>, Vec<usize>) {
        let (kind, n, p, var) = self.0[i as usize];
        if kind == 0 {
            // rank r of row i; the twin moves the row at place p above all others or swaps two
            let base: Vec<f64> = (0..n).map(|r| if var & 1 == 0 { (r / 2) as f64 } else { ((r * 7 + 3) % n) as f64 }).collect();
            let mut twin = base.clone();
            if var & 2 == 0 {
                twin[p] = n as f64 + 5.0;
            } else {
                twin.swap(p, (p + 1) % n);
            }
            let cls: Vec<usize> = (0..n).map(|r| if var & 2 == 0 { (r == p) as usize } else { (twin[r] >= twin[p]) as usize }).collect();
            let rows = (0..n)
                .map(|r| match var & 4 {
                    0 => vec![base[r], twin[r], base[r]],
                    _ => vec![twin[r], base[r], base[r], twin[r]],
                })
                .collect();
            let labels = cls.iter().map(|&c| vec![c as f64 * 12.0, 3.0]).collect();
            (rows, labels, cls)
        } else {
            let (sc, off) = LSCALE[p];
            let f = |r: usize, c: usize| -> f64 {
                let x = pattern(if var & 8 == 0 { 4 } else { 14 }, r, n, c) * 0.5;
                match var & 7 {
                    0 => x * 1e-9,
                    1 => x * 1e9 + 1e12,
                    2 => -x,
                    3 => x * 1e-300,
                    4 => if r % 3 == 0 { if r % 2 == 0 { 0.0 } else { -0.0 } } else { x - 1.0 },
                    5 => if x == 0.0 { f64::NEG_INFINITY } else if r % 4 == 3 { f64::INFINITY } else { x },
                    6 => x * 1e300,
                    _ => 1.0 + x * 1e-12,
                }
            };
            let rows = (0..n).map(|r| vec![f(r, 0), f(r, 1)]).collect();
            let cls: Vec<usize> = (0..n).map(|r| pattern(10, r, n, 1) as usize % 2).collect();
            let labels = (0..n).map(|r| vec![pattern(10, r, n, 0) * sc + off, pattern(14, r, n, 3) * sc + off]).collect();
            (rows, labels, cls)
        }
    }
    pub fn get(&self, i: u64) -> Data {
        let (rows, labels, _) = self.row(i);
        Data { rows, labels }
    }
    pub fn class(&self, i: u64) -> (Data, Vec<usize>) {
        let (rows, _, cls) = self.row(i);
        let k = 2 + (i % 2) as usize;
        let labels = cls.iter().map(|&c| crate::model::onehot(c, k)).collect();
        (Data { rows, labels }, cls)
    }
}
