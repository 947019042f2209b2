//! Bounded exhaustive exploration engine.
//!
//! A check is a list of *families*; a family is an index range 0..count and a function that
//! decodes an index into one case (input, configuration, history), runs it on the real code and
//! compares every observed step with the reference model.  All indices of all families are
//! visited by forked workers; nothing is sampled.  A worker that dies or stops making progress is
//! a violation of the case it was running.

use std::collections::HashSet;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub type CaseResult = Result<(), String>;

pub struct Family {
    pub name: String,
    pub count: u64,
    pub chunk: u64,
    pub run: Box<dyn Fn(u64, &mut Ctx) -> CaseResult>,
}

impl Family {
    pub fn new(
        name: impl Into<String>,
        count: u64,
        run: impl Fn(u64, &mut Ctx) -> CaseResult + 'static,
    ) -> Family {
        Family {
            name: name.into(),
            count,
            chunk: (count / 256).clamp(1, 2048),
            run: Box::new(run),
        }
    }
    pub fn chunk(mut self, chunk: u64) -> Family {
        self.chunk = chunk.max(1);
        self
    }
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub families: Vec<Family>,
    /// create a one-thread rayon pool in each worker and run the cases inside it
    pub pool: bool,
    /// findings recorded in known_findings.json: (prefix of message, text)
    pub bounds: String,
}

/// Per-worker accumulator handed to every case.
pub struct Ctx {
    pub want: bool,
    pub description: Option<String>,
    states: HashSet<u64>,
    outcomes: HashSet<u64>,
    states_overflow: u64,
    outcomes_overflow: u64,
    pub transitions: u64,
    pub traces: u64,
    pub evals: u64,
    pub nontrivial: u64,
    pub skipped: u64,
    pub scratch: String,
}

const SET_CAP: usize = 6_000_000;

impl Ctx {
    fn new(scratch: String) -> Ctx {
        Ctx {
            want: false,
            description: None,
            states: HashSet::new(),
            outcomes: HashSet::new(),
            states_overflow: 0,
            outcomes_overflow: 0,
            transitions: 0,
            traces: 0,
            evals: 0,
            nontrivial: 0,
            skipped: 0,
            scratch,
        }
    }
    /// One distinct state of the reference model (by hash of its canonical form).
    pub fn state(&mut self, h: u64) {
        if self.states.len() < SET_CAP {
            self.states.insert(h);
        } else {
            self.states_overflow += 1;
        }
    }
    /// One observed outcome of the implementation.
    pub fn outcome(&mut self, h: u64) {
        if self.outcomes.len() < SET_CAP {
            self.outcomes.insert(h);
        } else {
            self.outcomes_overflow += 1;
        }
    }
    pub fn trans(&mut self, n: u64) {
        self.transitions += n;
    }
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    pub fn skip(&mut self) {
        self.skipped += 1;
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want {
            self.description = Some(f());
        }
    }
}

/// Small fast hash for state sets.
#[derive(Clone, Copy)]
pub struct H(pub u64);
impl H {
    pub fn new(tag: u64) -> H {
        H(0x9E37_79B9_7F4A_7C15u64 ^ tag.wrapping_mul(0xD6E8_FEB8_6659_FD93))
    }
    pub fn u(&mut self, v: u64) -> &mut H {
        let mut x = self.0 ^ v.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        x ^= x >> 32;
        x = x.wrapping_mul(0xD6E8_FEB8_6659_FD93);
        x ^= x >> 29;
        self.0 = x.wrapping_add(0x2545_F491_4F6C_DD1D);
        self
    }
    pub fn f(&mut self, v: f64) -> &mut H {
        self.u(v.to_bits())
    }
    pub fn fs(&mut self, v: &[f64]) -> &mut H {
        self.u(v.len() as u64);
        for x in v {
            self.f(*x);
        }
        self
    }
    pub fn get(&self) -> u64 {
        self.0
    }
}

#[repr(C)]
struct WorkerSlot {
    cur: AtomicU64,
    beat: AtomicU64,
    done: AtomicU64,
    _pad: [u64; 5],
}
#[repr(C)]
struct Shared {
    next: AtomicU64,
    min_viol: AtomicU64,
    capped: AtomicU64,
    _pad: [u64; 5],
    slots: [WorkerSlot; 64],
}

pub fn tier() -> String {
    match std::env::var("VERIF_TIER") {
        Ok(t) if t == "thorough" => "thorough".into(),
        _ => "quick".into(),
    }
}
pub fn thorough() -> bool {
    tier() == "thorough"
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}
/// Runs a call into the code under test; a panic becomes Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}
/// Same, with the panic reported as a violation.
pub fn must<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    guard(f).map_err(|e| format!("{} panicked: {}", what, e))
}

fn now_ms(t0: Instant) -> u64 {
    t0.elapsed().as_millis() as u64
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn locate(fams: &[Family], mut ord: u64) -> (usize, u64) {
    for (i, f) in fams.iter().enumerate() {
        if ord < f.count {
            return (i, ord);
        }
        ord -= f.count;
    }
    panic!("ordinal out of range")
}

fn run_case(fam: &Family, idx: u64, ctx: &mut Ctx) -> CaseResult {
    match catch_unwind(AssertUnwindSafe(|| (fam.run)(idx, ctx))) {
        Ok(r) => r,
        Err(_) => Err(format!(
            "panic: {}",
            LAST_PANIC.with(|p| p.borrow().clone())
        )),
    }
}

fn known_findings(id: &str) -> Vec<(String, String)> {
    // lines of /verif/known_findings.txt: "open: property=<id> match=<substring> what=<text>"
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string("/verif/known_findings.txt") {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix(&format!("open: property={} match=", id)) {
                if let Some((m, w)) = rest.split_once(" what=") {
                    v.push((m.to_string(), w.to_string()));
                }
            }
        }
    }
    v
}

pub fn in_pool<R: Send>(threads: usize, f: impl FnOnce() -> R + Send) -> R {
    in_pool_of(threads, 16 << 20, f)
}
pub fn in_pool_of<R: Send>(threads: usize, stack: usize, f: impl FnOnce() -> R + Send) -> R {
    rayon::ThreadPoolBuilder::new()
        .num_threads(threads)
        .stack_size(stack)
        .build()
        .unwrap()
        .install(f)
}

struct SendPtr<T>(T);
unsafe impl<T> Send for SendPtr<T> {}
impl<T> SendPtr<T> {
    fn get(self) -> T {
        self.0
    }
}

pub fn main_run(mut check: Check) -> ! {
    let t0 = Instant::now();
    install_panic_hook();
    // development aid: restrict to some families (never set by the registered commands)
    if let Ok(f) = std::env::var("VHARNESS_FAMILY") {
        check.families.retain(|x| x.name.contains(&f));
    }
    let check = check;
    let args: Vec<String> = std::env::args().collect();
    let total: u64 = check.families.iter().map(|f| f.count).sum();
    if args.len() >= 4 && args[1] == "--replay" {
        let fam = check
            .families
            .iter()
            .find(|f| f.name == args[2])
            .unwrap_or_else(|| {
                eprintln!("no family {}", args[2]);
                std::process::exit(2)
            });
        let idx: u64 = args[3].parse().unwrap();
        let scratch = make_scratch(check.id);
        let mut ctx = Ctx::new(scratch.clone());
        ctx.want = true;
        let pool = check.pool;
        let p = SendPtr((fam as *const Family, &mut ctx as *mut Ctx));
        let body = move || {
            let (f, c) = p.get();
            unsafe { run_case(&*f, idx, &mut *c) }
        };
        let r = if pool { in_pool(1, body) } else { body() };
        println!("case: {}", ctx.description.clone().unwrap_or_default());
        let _ = std::fs::remove_dir_all(&scratch);
        match r {
            Ok(()) => {
                println!("OK: property {} holds on this case", check.id);
                std::process::exit(0)
            }
            Err(e) => {
                println!("FAILS: {}", e);
                std::process::exit(1)
            }
        }
    }

    let workers: usize = std::env::var("VERIF_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| {
            std::thread::available_parallelism()
                .map(|n| n.get())
                .unwrap_or(4)
        })
        .clamp(1, 32);
    let wall_cap = Duration::from_secs(if thorough() { 3 * 3600 } else { 420 });
    let stall = Duration::from_secs(150);

    // chunk list
    let mut chunks: Vec<(u64, u64)> = vec![];
    let mut base = 0u64;
    for f in &check.families {
        let mut s = 0;
        while s < f.count {
            let e = (s + f.chunk).min(f.count);
            chunks.push((base + s, base + e));
            s = e;
        }
        base += f.count;
    }

    let shared: &Shared = unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &*(p as *const Shared)
    };
    shared.min_viol.store(u64::MAX, SeqCst);
    let scratch = make_scratch(check.id);
    let known = known_findings(check.id);

    let mut pids: Vec<i32> = vec![];
    for w in 0..workers {
        shared.slots[w].cur.store(u64::MAX, SeqCst);
        shared.slots[w].beat.store(now_ms(t0), SeqCst);
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            unsafe {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let lim = libc::rlimit {
                    rlim_cur: 6 << 30,
                    rlim_max: 6 << 30,
                };
                libc::setrlimit(libc::RLIMIT_AS, &lim);
                let nocore = libc::rlimit {
                    rlim_cur: 0,
                    rlim_max: 0,
                };
                libc::setrlimit(libc::RLIMIT_CORE, &nocore);
                // stdout of the code under test must not mix with our verdict lines
                let devnull = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
                libc::dup2(devnull, 1);
            }
            let wscratch = format!("{}/w{}", scratch, w);
            let _ = std::fs::create_dir_all(&wscratch);
            let mut ctx = Ctx::new(wscratch.clone());
            let p = SendPtr((
                &check as *const Check,
                &chunks as *const Vec<(u64, u64)>,
                &mut ctx as *mut Ctx,
                &known as *const Vec<(String, String)>,
            ));
            let pool = check.pool;
            let body = move || {
                let (check, chunks, ctx, known) = p.get();
                unsafe { worker(&*check, &*chunks, shared, w, &mut *ctx, t0, wall_cap, &*known) }
            };
            if pool {
                in_pool(1, body)
            } else {
                body()
            };
            dump_worker(&ctx, &wscratch);
            shared.slots[w].done.store(1, SeqCst);
            unsafe { libc::_exit(0) };
        }
        pids.push(pid);
    }

    // supervise
    let mut alive: Vec<bool> = vec![true; workers];
    let mut engine_error: Option<String> = None;
    let mut crash_viol: Option<(u64, String)> = None;
    while alive.iter().any(|a| *a) {
        std::thread::sleep(Duration::from_millis(20));
        for w in 0..workers {
            if !alive[w] {
                continue;
            }
            let mut st = 0i32;
            let r = unsafe { libc::waitpid(pids[w], &mut st, libc::WNOHANG) };
            if r == pids[w] {
                alive[w] = false;
                let clean = libc::WIFEXITED(st)
                    && libc::WEXITSTATUS(st) == 0
                    && shared.slots[w].done.load(SeqCst) == 1;
                if !clean {
                    let cur = shared.slots[w].cur.load(SeqCst);
                    let sig = if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { 0 };
                    if sig == libc::SIGKILL || cur == u64::MAX {
                        engine_error = Some(format!("worker {} ended (signal {})", w, sig));
                    } else {
                        let m = format!("the process died while running this case (signal {}, status {}): stack overflow, abort or memory exhaustion in the code under test", sig, st);
                        if crash_viol.as_ref().map_or(true, |c| cur < c.0) {
                            crash_viol = Some((cur, m));
                        }
                        shared.min_viol.fetch_min(cur, SeqCst);
                    }
                }
            } else {
                let idle = now_ms(t0).saturating_sub(shared.slots[w].beat.load(SeqCst));
                if idle > stall.as_millis() as u64 {
                    let cur = shared.slots[w].cur.load(SeqCst);
                    unsafe { libc::kill(pids[w], libc::SIGKILL) };
                    unsafe { libc::waitpid(pids[w], &mut st, 0) };
                    alive[w] = false;
                    if cur == u64::MAX {
                        engine_error = Some(format!("worker {} stalled outside a case", w));
                    } else {
                        let m = format!(
                            "no result after {} s: the call does not terminate",
                            stall.as_secs()
                        );
                        if crash_viol.as_ref().map_or(true, |c| cur < c.0) {
                            crash_viol = Some((cur, m));
                        }
                        shared.min_viol.fetch_min(cur, SeqCst);
                    }
                }
            }
        }
    }

    // merge
    let mut viol: Option<(u64, String)> = crash_viol;
    let (mut evals, mut transitions, mut traces, mut nontrivial, mut skipped) =
        (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut states: HashSet<u64> = HashSet::new();
    let mut outcomes: HashSet<u64> = HashSet::new();
    let mut overflow = 0u64;
    let mut known_hits: Vec<String> = vec![];
    for w in 0..workers {
        let d = format!("{}/w{}", scratch, w);
        if let Ok(s) = std::fs::read_to_string(format!("{}/counts", d)) {
            let v: Vec<u64> = s.split_whitespace().filter_map(|x| x.parse().ok()).collect();
            if v.len() == 6 {
                evals += v[0];
                transitions += v[1];
                traces += v[2];
                nontrivial += v[3];
                skipped += v[4];
                overflow += v[5];
            }
        }
        read_set(&format!("{}/states", d), &mut states);
        read_set(&format!("{}/outcomes", d), &mut outcomes);
        if let Ok(s) = std::fs::read_to_string(format!("{}/viol", d)) {
            if let Some((o, m)) = s.split_once('\n') {
                let o: u64 = o.parse().unwrap();
                if viol.as_ref().map_or(true, |v| o < v.0) {
                    viol = Some((o, m.to_string()));
                }
            }
        }
        if let Ok(s) = std::fs::read_to_string(format!("{}/known", d)) {
            for l in s.lines() {
                if !known_hits.contains(&l.to_string()) {
                    known_hits.push(l.to_string());
                }
            }
        }
    }
    let capped = shared.capped.load(SeqCst) != 0;

    // samples: first, middle and last case of a few families, described by the case itself
    let mut samples: Vec<String> = vec![];
    if viol.is_none() && engine_error.is_none() {
        samples = collect_samples(&check, &scratch);
    }
    if let Some((o, m)) = &viol {
        let (fi, idx) = locate(&check.families, *o);
        samples.push(format!("violating case {}[{}]: {}", check.families[fi].name, idx, m));
    }
    let _ = std::fs::remove_dir_all(&scratch);

    let wall = t0.elapsed().as_secs_f64();
    let fams: Vec<String> = check
        .families
        .iter()
        .map(|f| format!("{}:{}", json_str(&f.name), f.count))
        .collect();
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"distinct_outcomes_of_the_implementation\": {},\n  \"cases_skipped_by_precondition\": {},\n  \"cases_in_space\": {},\n  \"families\": {{{}}},\n  \"bounds\": {},\n  \"rule\": {},\n  \"exhaustive\": {},\n  \"uncounted_set_insertions\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json_str(check.id),
        json_str(&tier()),
        seed,
        json_str(check.level),
        states.len(),
        transitions,
        traces,
        outcomes.len(),
        skipped,
        total,
        fams.join(", "),
        json_str(&check.bounds),
        json_str(&check.rule),
        !capped && viol.is_none() && engine_error.is_none(),
        overflow,
        samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        check.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        wall,
        if viol.is_some() { 1 } else { 0 }
    );
    let _ = nontrivial;
    let evdir = std::env::var("VERIF_EVIDENCE_DIR").unwrap_or("/verif/evidence".into());
    let _ = std::fs::create_dir_all(&evdir);
    if let Err(e) = std::fs::write(format!("{}/{}.json", evdir, check.id), ev) {
        engine_error.get_or_insert(format!("cannot write evidence: {}", e));
    }
    println!(
        "{}: tier={} cases={}/{} states={} transitions={} traces={} distinct_outcomes={} skipped={} wall={:.1}s{}",
        check.id, tier(), evals, total, states.len(), transitions, traces, outcomes.len(), skipped, wall,
        if capped { " (wall cap hit: not exhaustive)" } else { "" }
    );
    for k in &known_hits {
        println!("KNOWN-FINDING: property={} {}", check.id, k);
    }
    if let Some((o, m)) = viol {
        let (fi, idx) = locate(&check.families, o);
        let dir = format!("/verif/replays/{}", check.id);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}.txt", dir, check.families[fi].name.replace('/', "_"), idx);
        let bin = std::env::current_exe()
            .map(|p| p.display().to_string())
            .unwrap_or_default();
        let _ = std::fs::write(
            &path,
            format!(
                "property: {}\nfamily: {}\nindex: {}\nreplay: VERIF_TIER={} {} --replay {} {}\n\n{}\n",
                check.id, check.families[fi].name, idx, tier(), bin, check.families[fi].name, idx, m
            ),
        );
        println!("{}", m);
        println!("VIOLATION property={} replay={}", check.id, path);
        std::process::exit(1);
    }
    if let Some(e) = engine_error {
        eprintln!("ENGINE ERROR: {}", e);
        std::process::exit(2);
    }
    if evals != total && !capped {
        eprintln!("ENGINE ERROR: {} of {} cases ran", evals, total);
        std::process::exit(2);
    }
    std::process::exit(0)
}

fn make_scratch(id: &str) -> String {
    let d = std::env::temp_dir()
        .join(format!("vharness-{}-{}", id, std::process::id()))
        .display()
        .to_string();
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}

fn collect_samples(check: &Check, scratch: &str) -> Vec<String> {
    // in a child, so that the parent stays single-threaded and cannot be taken down
    let out = format!("{}/samples", scratch);
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        unsafe {
            let devnull = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
            libc::dup2(devnull, 1);
            libc::alarm(120);
        }
        let ws = format!("{}/s", scratch);
        let _ = std::fs::create_dir_all(&ws);
        let mut ctx = Ctx::new(ws);
        ctx.want = true;
        let pool = check.pool;
        let p = SendPtr((check as *const Check, &mut ctx as *mut Ctx, out.clone()));
        let body = move || {
            let (check, ctx, out) = p.get();
            let (check, ctx) = unsafe { (&*check, &mut *ctx) };
            let mut lines = String::new();
            let n = check.families.len();
            for (k, f) in check.families.iter().enumerate() {
                if n > 8 && k % (n / 8 + 1) != 0 {
                    continue;
                }
                if f.count == 0 {
                    continue;
                }
                let idx = f.count * 5 / 8;
                ctx.description = None;
                let r = run_case(f, idx, ctx);
                lines.push_str(
                    &format!(
                        "{}[{}]: {} -> {}",
                        f.name,
                        idx,
                        ctx.description.clone().unwrap_or_default(),
                        if r.is_ok() { "agrees with the model" } else { "VIOLATES" }
                    )
                    .replace('\n', " / "),
                );
                lines.push('\n');
            }
            let _ = std::fs::write(out, lines);
        };
        if pool {
            in_pool(1, body)
        } else {
            body()
        };
        unsafe { libc::_exit(0) };
    }
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    std::fs::read_to_string(out)
        .unwrap_or_default()
        .lines()
        .map(|s| s.chars().take(600).collect())
        .collect()
}

fn read_set(path: &str, set: &mut HashSet<u64>) {
    if let Ok(mut f) = std::fs::File::open(path) {
        let mut b = vec![];
        if f.read_to_end(&mut b).is_ok() {
            for c in b.chunks_exact(8) {
                set.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
}

fn dump_set(path: &str, set: &HashSet<u64>) {
    let mut b = Vec::with_capacity(set.len() * 8);
    for x in set {
        b.extend_from_slice(&x.to_le_bytes());
    }
    if let Ok(mut f) = std::fs::File::create(path) {
        let _ = f.write_all(&b);
    }
}

fn dump_worker(ctx: &Ctx, dir: &str) {
    let _ = std::fs::write(
        format!("{}/counts", dir),
        format!(
            "{} {} {} {} {} {}",
            ctx.evals,
            ctx.transitions,
            ctx.traces,
            ctx.nontrivial,
            ctx.skipped,
            ctx.states_overflow + ctx.outcomes_overflow
        ),
    );
    dump_set(&format!("{}/states", dir), &ctx.states);
    dump_set(&format!("{}/outcomes", dir), &ctx.outcomes);
}

#[allow(clippy::too_many_arguments)]
fn worker(
    check: &Check,
    chunks: &[(u64, u64)],
    shared: &Shared,
    w: usize,
    ctx: &mut Ctx,
    t0: Instant,
    wall_cap: Duration,
    known: &[(String, String)],
) {
    let slot = &shared.slots[w];
    loop {
        let c = shared.next.fetch_add(1, SeqCst) as usize;
        if c >= chunks.len() {
            return;
        }
        let (s, e) = chunks[c];
        if s > shared.min_viol.load(SeqCst) {
            continue;
        }
        if t0.elapsed() > wall_cap {
            shared.capped.store(1, SeqCst);
            return;
        }
        let (fi, first) = locate(&check.families, s);
        let fam = &check.families[fi];
        for k in 0..(e - s) {
            let ord = s + k;
            slot.cur.store(ord, SeqCst);
            slot.beat.store(now_ms(t0), SeqCst);
            ctx.evals += 1;
            let r = run_case(fam, first + k, ctx);
            if let Err(msg) = r {
                if let Some((_, what)) = known.iter().find(|(m, _)| msg.contains(m.as_str())) {
                    let p = format!("{}/known", ctx.scratch);
                    let mut s = std::fs::read_to_string(&p).unwrap_or_default();
                    if !s.lines().any(|l| l == what) {
                        s.push_str(what);
                        s.push('\n');
                        let _ = std::fs::write(&p, s);
                    }
                    continue;
                }
                if ord < shared.min_viol.fetch_min(ord, SeqCst) {
                    ctx.want = true;
                    ctx.description = None;
                    let again = run_case(fam, first + k, ctx);
                    ctx.want = false;
                    let m = match again {
                        Err(m2) => m2,
                        Ok(()) => format!("{} (only after the preceding cases of this worker: the result depends on call history)", msg),
                    };
                    let text = format!(
                        "{}\n{}[{}]: {}\ncase: {}",
                        ord,
                        fam.name,
                        first + k,
                        m,
                        ctx.description.clone().unwrap_or_default()
                    );
                    let _ = std::fs::write(format!("{}/viol", ctx.scratch), text);
                }
                slot.cur.store(u64::MAX, SeqCst);
                break;
            }
        }
        slot.cur.store(u64::MAX, SeqCst);
    }
}
