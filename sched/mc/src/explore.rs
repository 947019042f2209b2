//! The explorer. Every execution is a forked child that builds a rayon pool, runs one scenario
//! under the scheduler following a prefix of decisions and then the default (alternative 0), and
//! reports all decisions it met. Every other alternative of every decision met becomes a prefix of
//! its own, until none is left: all schedules within the bounds are executed exactly once.
use rayon_core::sched::{self, Base, Shared};
use std::collections::{HashSet, VecDeque};
use std::rc::Rc;
use std::time::{Duration, Instant};
use vharness::engine::{install_panic_hook, thorough, tier};

pub type Outcome = Result<String, String>;

pub struct Scenario {
    pub name: String,
    pub what: String,
    /// worker threads in the pool
    pub pool: usize,
    /// application threads the scenario starts
    pub clients: usize,
    /// largest number of preemptions, and of decisions other than the default
    pub preempt: u32,
    pub devs: u32,
    /// 0: run to block; 1: round robin; 2 + k: the k-th priority order
    pub base: u32,
    /// look for unordered accesses to ordinary memory and make them scheduling points
    pub memory: bool,
    pub run: Box<dyn Fn() -> Outcome>,
    pub reference: Box<dyn Fn() -> Outcome>,
}

pub struct McCheck {
    pub id: &'static str,
    pub rule: String,
    pub bounds: String,
    pub assumptions: Vec<String>,
    pub scenarios: Vec<Scenario>,
}

impl Scenario {
    /// threads that take part: workers and clients
    fn threads(&self) -> usize {
        self.pool + 1 + self.clients
    }
}

/// Which schedules a scenario is explored under: (base, preemptions, other decisions).
pub type Plan = Vec<(u32, u32, u32)>;

/// Run-to-block with up to `p` preemptions and `d` decisions in all, round robin with up to `r`
/// decisions, and priority orders of the `n` threads with up to `q` decisions each. Thread 0, which
/// only waits, comes first in them; of the workers' orders two are taken, all if `all`.
pub fn plan(n: usize, p: u32, d: u32, r: u32, q: Option<u32>, all: bool) -> Plan {
    let mut v = vec![(0, p, d), (1, 0, r)];
    if let Some(q) = q {
        let orders: usize = (1..n).product();
        for j in 0..orders {
            // j = 0 is the ascending and orders - 1 the descending order
            if all || j == 0 || j == orders - 1 {
                v.push((2 + (n * j) as u32, 0, q));
            }
        }
    }
    v
}

/// The k-th permutation of 0..n.
pub fn permutation(mut k: usize, n: usize) -> Vec<usize> {
    let mut rest: Vec<usize> = (0..n).collect();
    let mut v = vec![];
    while !rest.is_empty() {
        let i = k % rest.len();
        k /= rest.len();
        v.push(rest.remove(i));
    }
    v
}

/// A panic becomes an error.
pub fn guarded(f: impl FnOnce() -> Outcome) -> Outcome {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned()).unwrap_or_default();
            Err(format!("panicked: {}", m))
        }
    }
}

const MAXP: usize = sched::MAX_TRACE;
const QUIT: u32 = u32::MAX;
const TIMEOUT_S: u32 = 100;
const MAX_STEPS: u64 = 6_000_000;

#[repr(C)]
struct Lane {
    scenario: u32,
    reference: u32,
    prefix_len: u32,
    wstatus: i32,
    prefix: [u16; MAXP],
    points_len: u32,
    points: [u64; sched::MAX_RACY],
    sh: Shared,
}

/// One prefix: the decisions of a parent execution up to `at`, then `alt`.
struct Work {
    parent: Rc<Vec<u16>>,
    at: usize,
    alt: u16,
}
impl Work {
    fn prefix(&self) -> Vec<u16> {
        let mut v = self.parent[..self.at].to_vec();
        if self.alt != u16::MAX {
            v.push(self.alt);
        }
        v
    }
}

fn child(c: &McCheck, l: *mut Lane) -> ! {
    let l = unsafe { &mut *l };
    let s = &c.scenarios[l.scenario as usize];
    let (pool, preempt, devs) = if l.reference == 1 { (1, 0, 0) } else { (s.pool, s.preempt, s.devs) };
    let f = if l.reference == 1 { &s.reference } else { &s.run };
    let prefix = l.prefix[..l.prefix_len as usize].to_vec();
    let base = match s.base {
        0 => Base::RunToBlock,
        1 => Base::RoundRobin,
        k => Base::Priority(permutation(k as usize - 2, s.threads())),
    };
    sched::init(&mut l.sh, prefix, preempt, devs, if l.reference == 1 { Base::RunToBlock } else { base }, MAX_STEPS);
    if s.memory && l.reference == 0 {
        sched::check_order(l.points[..l.points_len as usize].to_vec());
    }
    rayon::ThreadPoolBuilder::new().num_threads(pool).build_global().expect("the pool");
    sched::settle();
    sched::go();
    let r = guarded(f);
    sched::stop();
    let text = match r {
        Ok(t) => format!("OK {}", t),
        Err(t) => format!("ERR {}", t),
    };
    let mut h = vharness::engine::H::new(77);
    for b in text.as_bytes().chunks(8) {
        let mut x = [0u8; 8];
        x[..b.len()].copy_from_slice(b);
        h.u(u64::from_le_bytes(x));
    }
    h.u(text.len() as u64);
    sched::finish(h.get(), &text)
}

fn lane(c: &McCheck, l: *mut Lane, me: u8, rx: i32, tx: i32) -> ! {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        loop {
            let mut b = 0u8;
            if libc::read(rx, &mut b as *mut u8 as *mut _, 1) != 1 || (*l).scenario == QUIT {
                libc::_exit(0);
            }
            let sh = &mut (*l).sh;
            sh.status = sched::RUNNING;
            sh.trace_len = 0;
            sh.state_len = 0;
            sh.text_len = 0;
            sh.steps = 0;
            sh.switches = 0;
            sh.diverged = 0;
            sh.outcome = 0;
            sh.steals = 0;
            sh.full = 0;
            sh.racy_len = 0;
            sh.accesses = 0;
            let pid = libc::fork();
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::alarm(TIMEOUT_S);
                child(c, l);
            }
            let mut st = 0;
            if pid < 0 {
                st = -1;
            } else {
                while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
            }
            (*l).wstatus = st;
            libc::write(tx, &me as *const u8 as *const _, 1);
        }
    }
}

/// One processor per lane: handing over between threads is cheapest on one.
fn pin(i: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        let size = std::mem::size_of::<libc::cpu_set_t>();
        if libc::sched_getaffinity(0, size, &mut set) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|&c| libc::CPU_ISSET(c, &set)).collect();
        if cpus.is_empty() {
            return;
        }
        libc::CPU_ZERO(&mut set);
        libc::CPU_SET(cpus[i % cpus.len()], &mut set);
        libc::sched_setaffinity(0, size, &set);
    }
}

struct Ended {
    trace: Vec<[u16; 2]>,
    outcome: u64,
    text: String,
    trouble: Option<String>,
    diverged: bool,
}

fn collect(l: &Lane) -> Result<Ended, String> {
    let sh = &l.sh;
    let st = l.wstatus;
    let mut trouble = None;
    if st == -1 {
        return Err("fork failed".into());
    }
    match sh.status {
        sched::FINISHED => {}
        sched::DEADLOCK => trouble = Some("deadlock: every thread waits for another".to_string()),
        sched::NO_PROGRESS => trouble = Some(format!("no result after {} steps: the call does not come to an end", MAX_STEPS)),
        _ => {
            if libc::WIFSIGNALED(st) {
                let sig = libc::WTERMSIG(st);
                if sig == libc::SIGALRM {
                    trouble = Some(format!("no result after {} s: the call does not come to an end", TIMEOUT_S));
                } else if sig == libc::SIGKILL {
                    return Err("an execution was killed".into());
                } else {
                    trouble = Some(format!("the process died with signal {}", sig));
                }
            } else {
                trouble = Some(format!("the process ended with status {}", st));
            }
        }
    }
    let text = String::from_utf8_lossy(&sh.text[..sh.text_len as usize]).to_string();
    if trouble.is_none() && text.starts_with("ERR ") {
        trouble = Some(text[4..].to_string());
    }
    let trace = sh.trace[..sh.trace_len as usize].to_vec();
    Ok(Ended { trace, outcome: sh.outcome, text, trouble, diverged: sh.diverged > 0 || (sh.trace_len as usize) < l.prefix_len as usize })
}

struct Lanes {
    lanes: Vec<*mut Lane>,
    tx: Vec<i32>,
    rx: i32,
    pids: Vec<i32>,
    points: std::cell::RefCell<Vec<u64>>,
}
impl Lanes {
    fn new(c: &McCheck, n: usize) -> Lanes {
        unsafe {
            let mut back = [0i32; 2];
            assert!(libc::pipe(back.as_mut_ptr()) == 0);
            let mut r = Lanes { lanes: vec![], tx: vec![], rx: back[0], pids: vec![], points: Default::default() };
            for i in 0..n {
                let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Lane>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
                assert!(p != libc::MAP_FAILED);
                let mut fd = [0i32; 2];
                assert!(libc::pipe(fd.as_mut_ptr()) == 0);
                let pid = libc::fork();
                assert!(pid >= 0);
                if pid == 0 {
                    let devnull = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
                    libc::dup2(devnull, 1);
                    let nocore = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                    libc::setrlimit(libc::RLIMIT_CORE, &nocore);
                    libc::close(fd[1]);
                    pin(i);
                    lane(c, p as *mut Lane, i as u8, fd[0], back[1]);
                }
                libc::close(fd[0]);
                r.lanes.push(p as *mut Lane);
                r.tx.push(fd[1]);
                r.pids.push(pid);
            }
            libc::close(back[1]);
            r
        }
    }
    fn start(&self, i: usize, scenario: usize, reference: bool, prefix: &[u16]) {
        unsafe {
            let p: *mut Lane = self.lanes[i];
            let l = &mut *p;
            l.scenario = scenario as u32;
            l.reference = reference as u32;
            l.prefix_len = prefix.len() as u32;
            let points = self.points.borrow();
            l.points_len = points.len() as u32;
            l.points[..points.len()].copy_from_slice(&points);
            l.prefix[..prefix.len()].copy_from_slice(prefix);
            let b = 0u8;
            libc::write(self.tx[i], &b as *const u8 as *const _, 1);
        }
    }
    fn wait(&self) -> Option<usize> {
        let mut b = 0u8;
        loop {
            let n = unsafe { libc::read(self.rx, &mut b as *mut u8 as *mut _, 1) };
            if n == 1 {
                return Some(b as usize);
            }
            if n == 0 || unsafe { *libc::__errno_location() } != libc::EINTR {
                return None;
            }
        }
    }
    fn lane(&self, i: usize) -> &Lane {
        unsafe { &*self.lanes[i] }
    }
    /// Runs one execution on lane 0 (all lanes idle).
    fn one(&self, scenario: usize, reference: bool, prefix: &[u16]) -> Result<Ended, String> {
        self.start(0, scenario, reference, prefix);
        self.wait().ok_or("a lane ended")?;
        collect(self.lane(0))
    }
    fn quit(&self) {
        for i in 0..self.lanes.len() {
            let l: *mut Lane = self.lanes[i];
            unsafe { (*l).scenario = QUIT };
            let b = 0u8;
            unsafe { libc::write(self.tx[i], &b as *const u8 as *const _, 1) };
        }
        for p in &self.pids {
            let mut st = 0;
            unsafe { libc::waitpid(*p, &mut st, 0) };
        }
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Count {
    execs: u64,
    steps: u64,
    switches: u64,
    steals: u64,
    diverged: u64,
    full: u64,
    accesses: u64,
    points: u64,
    stopped: bool,
    longest: usize,
    outcomes: HashSet<u64>,
}

struct Violation {
    scenario: usize,
    prefix: Vec<u16>,
    points: Vec<u64>,
    what: String,
}

extern "C" {
    static __ehdr_start: u8;
}
/// Where the image is loaded: scheduling points are code addresses, kept relative to it in files.
fn image() -> u64 {
    std::ptr::addr_of!(__ehdr_start) as u64
}

fn differs(a: &str, b: &str) -> String {
    let (x, y): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    let k = x.iter().zip(&y).take_while(|(p, q)| p == q).count();
    let cut = |v: &Vec<char>| v[k.saturating_sub(80)..(k + 160).min(v.len())].iter().collect::<String>();
    format!("the result differs from the reference at character {}:\n  this schedule: ...{}\n  reference:     ...{}", k, cut(&x), cut(&y))
}

fn judge(e: &Ended, reference: &Ended) -> Option<String> {
    if let Some(t) = &e.trouble {
        return Some(t.clone());
    }
    if e.outcome != reference.outcome {
        return Some(differs(&e.text, &reference.text));
    }
    None
}

fn explore(ls: &Lanes, c: &McCheck, si: usize, deadline: Instant, states: &mut HashSet<u64>) -> Result<(Count, Option<Violation>), String> {
    let s = &c.scenarios[si];
    let mut n = Count::default();
    let reference = ls.one(si, true, &[])?;
    if let Some(t) = &reference.trouble {
        return Ok((n, Some(Violation { scenario: si, prefix: vec![], points: vec![], what: format!("sequentially, on one worker: {}", t) })));
    }
    // fewest departures from the default first
    let mut work: Vec<VecDeque<Work>> = (0..=s.devs as usize + 1).map(|_| VecDeque::new()).collect();
    work[0].push_back(Work { parent: Rc::new(vec![]), at: 0, alt: u16::MAX });
    let mut running: Vec<Option<(Vec<u16>, usize)>> = (0..ls.lanes.len()).map(|_| None).collect();
    let mut idle: Vec<usize> = (0..ls.lanes.len()).collect();
    let mut viol: Option<Violation> = None;
    let mut last: Vec<u16> = vec![];
    let mut restart = false;
    ls.points.borrow_mut().clear();
    loop {
        if restart && running.iter().all(|r| r.is_none()) {
            // further scheduling points: begin again
            restart = false;
            work.iter_mut().for_each(|q| q.clear());
            work[0].push_back(Work { parent: Rc::new(vec![]), at: 0, alt: u16::MAX });
        }
        while viol.is_none() && !n.stopped && !restart {
            let Some(b) = work.iter().position(|q| !q.is_empty()) else { break };
            let Some(i) = idle.pop() else { break };
            let w = work[b].pop_front().unwrap();
            let p = w.prefix();
            ls.start(i, si, false, &p);
            running[i] = Some((p, b));
        }
        if running.iter().all(|r| r.is_none()) {
            if restart && viol.is_none() && !n.stopped {
                continue;
            }
            break;
        }
        let i = ls.wait().ok_or("a lane ended")?;
        let (p, b) = running[i].take().unwrap();
        idle.push(i);
        let l = ls.lane(i);
        let e = collect(l)?;
        n.execs += 1;
        n.steps += l.sh.steps;
        n.switches += l.sh.switches;
        n.steals += l.sh.steals;
        n.diverged += e.diverged as u64;
        n.full += l.sh.full;
        n.accesses += l.sh.accesses;
        for pc in &l.sh.racy[..l.sh.racy_len as usize] {
            let mut points = ls.points.borrow_mut();
            if points.len() < sched::MAX_RACY && !points.contains(pc) {
                points.push(*pc);
                n.points += 1;
                restart = true;
            }
        }
        n.longest = n.longest.max(e.trace.len());
        n.outcomes.insert(e.outcome);
        states.extend(l.sh.states[..l.sh.state_len as usize].iter().map(|x| x ^ (si as u64).wrapping_mul(0x9E3779B97F4A7C15)));
        if let Some(what) = judge(&e, &reference) {
            if viol.is_none() {
                let prefix = e.trace.iter().map(|t| t[0]).collect();
                let points = l.points[..l.points_len as usize].to_vec();
                viol = Some(Violation { scenario: si, prefix, points, what });
            }
            continue;
        }
        let t: Rc<Vec<u16>> = Rc::new(e.trace.iter().map(|t| t[0]).collect());
        if !e.diverged {
            for at in p.len()..e.trace.len() {
                for alt in 1..e.trace[at][1] {
                    work[(b + 1).min(s.devs as usize + 1)].push_back(Work { parent: t.clone(), at, alt });
                }
            }
        }
        last = t.to_vec();
        if Instant::now() > deadline {
            n.stopped = true;
        }
    }
    if viol.is_none() {
        // the same decisions give the same execution
        let a = ls.one(si, false, &last)?;
        if a.trace.iter().map(|t| t[0]).collect::<Vec<_>>() != last {
            n.diverged += 1;
        }
    }
    Ok((n, viol))
}

fn write_replay(c: &McCheck, v: &Violation) -> String {
    let dir = format!("/verif/replays/{}", c.id);
    let _ = std::fs::create_dir_all(&dir);
    let s = &c.scenarios[v.scenario];
    let path = format!("{}/{}.txt", dir, s.name.replace(['/', ' '], "_"));
    let ds: Vec<String> = v.prefix.iter().map(|d| d.to_string()).collect();
    let ps: Vec<String> = v.points.iter().map(|d| (d - image()).to_string()).collect();
    let exe = std::env::current_exe().map(|p| p.display().to_string()).unwrap_or_default();
    let _ = std::fs::write(
        &path,
        format!("property: {}\nscenario: {}\nwhat: {}\ndecisions: {}\npoints: {}\nreplay: VERIF_TIER={} {} --replay {}\n\n{}\n", c.id, s.name, s.what, ds.join(","), ps.join(","), tier(), exe, path, v.what),
    );
    path
}

fn replay(c: &McCheck, path: &str) -> ! {
    let t = std::fs::read_to_string(path).expect("replay file");
    let field = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
    let name = field("scenario:");
    let numbers = |k: &str| -> Vec<u64> { field(k).split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect() };
    let prefix: Vec<u16> = numbers("decisions:").iter().map(|x| *x as u16).collect();
    let points: Vec<u64> = numbers("points:").iter().map(|x| x + image()).collect();
    let si = c.scenarios.iter().position(|s| s.name == name).unwrap_or_else(|| {
        eprintln!("no scenario {}", name);
        std::process::exit(2)
    });
    let ls = Lanes::new(c, 1);
    *ls.points.borrow_mut() = points;
    let r = ls.one(si, true, &[]).and_then(|r| ls.one(si, false, &prefix).map(|e| (r, e)));
    ls.quit();
    match r {
        Ok((r, e)) => {
            println!("decisions: {:?}", e.trace);
            println!("this schedule: {}\nreference: {}", e.text, r.text);
            match r.trouble.clone().or(judge(&e, &r)) {
                Some(w) => {
                    println!("FAILS: {}", w);
                    std::process::exit(1)
                }
                None => {
                    println!("OK");
                    std::process::exit(0)
                }
            }
        }
        Err(e) => {
            eprintln!("ENGINE ERROR: {}", e);
            std::process::exit(2)
        }
    }
}

/// Adds one scenario per entry of the plan.
#[allow(clippy::too_many_arguments)]
pub fn add(
    v: &mut Vec<Scenario>,
    name: String,
    what: String,
    pool: usize,
    clients: usize,
    plan: &Plan,
    memory: bool,
    run: impl Fn() -> Outcome + Clone + 'static,
    reference: impl Fn() -> Outcome + Clone + 'static,
) {
    for &(base, preempt, devs) in plan {
        let b = match base {
            0 => "block".to_string(),
            1 => "robin".to_string(),
            k => format!("prio{}", k - 2),
        };
        v.push(Scenario {
            name: format!("{}-w{}-{}-p{}d{}", name, pool, b, preempt, devs),
            what: what.clone(),
            pool,
            clients,
            preempt,
            devs,
            base,
            memory,
            run: Box::new(run.clone()),
            reference: Box::new(reference.clone()),
        });
    }
}

pub fn main_run(mut c: McCheck) -> ! {
    let t0 = Instant::now();
    install_panic_hook();
    if let Ok(f) = std::env::var("VHARNESS_FAMILY") {
        c.scenarios.retain(|x| x.name.contains(&f));
    }
    let c = c;
    let args: Vec<String> = std::env::args().collect();
    if args.len() >= 3 && args[1] == "--replay" {
        replay(&c, &args[2]);
    }
    let workers = std::env::var("VERIF_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)).clamp(1, 32);
    let deadline = t0 + Duration::from_secs(if thorough() { 3 * 3600 } else { 420 });
    let verbose = std::env::var("VHARNESS_VERBOSE").is_ok();
    let ls = Lanes::new(&c, workers);
    let mut states = HashSet::new();
    let mut counts: Vec<(String, Count)> = vec![];
    let mut viol = None;
    let mut error = None;
    for si in 0..c.scenarios.len() {
        let t1 = Instant::now();
        match explore(&ls, &c, si, deadline, &mut states) {
            Ok((n, v)) => {
                if verbose {
                    println!("  {}: executions={} steps={} steals={} longest={} diverged={} outcomes={} accesses={} points={} {:.2}s", c.scenarios[si].name, n.execs, n.steps, n.steals, n.longest, n.diverged, n.outcomes.len(), n.accesses, n.points, t1.elapsed().as_secs_f64());
                }
                counts.push((c.scenarios[si].name.clone(), n));
                if v.is_some() {
                    viol = v;
                    break;
                }
            }
            Err(e) => {
                error = Some(e);
                break;
            }
        }
    }
    ls.quit();
    let sum = |f: &dyn Fn(&Count) -> u64| counts.iter().map(|x| f(&x.1)).sum::<u64>();
    let (execs, steps, steals, diverged, full) = (sum(&|n| n.execs), sum(&|n| n.steps), sum(&|n| n.steals), sum(&|n| n.diverged), sum(&|n| n.full));
    let stopped = counts.iter().any(|x| x.1.stopped);
    let exhaustive = !stopped && viol.is_none() && error.is_none() && full == 0 && diverged == 0;
    let wall = t0.elapsed().as_secs_f64();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let per: Vec<String> = counts.iter().map(|(n, k)| format!("{}: [{}, {}, {}]", json_str(n), k.execs, k.steals, k.longest)).collect();
    let samples: Vec<String> = c.scenarios.iter().zip(&counts).take(8).map(|(s, (_, k))| json_str(&format!("{}: {} -> {} schedules, all as the reference", s.name, s.what, k.execs))).collect();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"context_switches\": {},\n  \"jobs_stolen\": {},\n  \"executions_that_diverged_from_their_prefix\": {},\n  \"executions_with_more_decisions_than_recorded\": {},\n  \"scenarios_schedules_steals_decisions\": {{{}}},\n  \"bounds\": {},\n  \"rule\": {},\n  \"exhaustive\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json_str(c.id),
        json_str(&tier()),
        seed,
        states.len(),
        steps,
        execs,
        sum(&|n| n.switches),
        steals,
        diverged,
        full,
        per.join(", "),
        json_str(&c.bounds),
        json_str(&c.rule),
        exhaustive,
        samples.join(", "),
        c.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        wall,
        viol.is_some() as u32
    );
    let evdir = std::env::var("VERIF_EVIDENCE_DIR").unwrap_or("/verif/evidence".into());
    let _ = std::fs::create_dir_all(&evdir);
    if let Err(e) = std::fs::write(format!("{}/{}.json", evdir, c.id), ev) {
        error.get_or_insert(format!("cannot write evidence: {}", e));
    }
    println!(
        "{}: tier={} scenarios={} schedules={} states={} steps={} steals={} diverged={} wall={:.1}s{}",
        c.id,
        tier(),
        counts.len(),
        execs,
        states.len(),
        steps,
        steals,
        diverged,
        wall,
        if stopped { " (wall cap hit: not exhaustive)" } else { "" }
    );
    if let Some(v) = viol {
        let path = write_replay(&c, &v);
        println!("scenario {}: {}", c.scenarios[v.scenario].name, v.what);
        println!("VIOLATION property={} replay={}", c.id, path);
        std::process::exit(1);
    }
    if let Some(e) = error {
        eprintln!("ENGINE ERROR: {}", e);
        std::process::exit(2);
    }
    std::process::exit(0)
}

/// Runs scenarios with known answers; exit status 1 if the explorer gets one wrong.
pub fn selftest(v: Vec<(Scenario, bool)>) -> ! {
    install_panic_hook();
    let (scenarios, bad): (Vec<_>, Vec<_>) = v.into_iter().unzip();
    let c = McCheck { id: "selftest", rule: String::new(), bounds: String::new(), assumptions: vec![], scenarios };
    let ls = Lanes::new(&c, 4);
    let mut wrong = 0;
    for si in 0..bad.len() {
        let r = explore(&ls, &c, si, Instant::now() + Duration::from_secs(60), &mut HashSet::new());
        match r {
            Ok((n, v)) => {
                let ok = v.is_some() == bad[si];
                wrong += !ok as u32;
                println!("{} {}: {} schedules, {}", if ok { "ok   " } else { "WRONG" }, c.scenarios[si].name, n.execs, v.map_or("nothing found".to_string(), |v| v.what.lines().next().unwrap_or("").to_string()));
            }
            Err(e) => {
                wrong += 1;
                println!("WRONG {}: {}", c.scenarios[si].name, e);
            }
        }
    }
    ls.quit();
    std::process::exit((wrong > 0) as i32)
}
