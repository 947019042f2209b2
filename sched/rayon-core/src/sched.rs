//! Deterministic scheduler for model checking (not part of rayon).
//!
//! Exactly one registered thread runs at a time (it holds the baton). Every visible operation of
//! the runtime, and every one reported by the instrumentation of the code under test, first calls
//! `point`, where the explorer may move the baton to another enabled thread (a preemption). A
//! thread that cannot go on calls `block` with the condition it waits for, and the explorer picks
//! any enabled thread. All decisions are taken from a prefix given by the explorer and continued
//! with alternative 0; decision and number of alternatives are written to a shared buffer.
//! Executions are sequentially consistent.

use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAX_TRACE: usize = 1 << 16;
pub const MAX_TEXT: usize = 1 << 16;

pub const MAX_RACY: usize = 64;

pub const RUNNING: u32 = 0;
pub const FINISHED: u32 = 1;
pub const DEADLOCK: u32 = 2;
pub const NO_PROGRESS: u32 = 3;

/// Shared with the explorer.
#[repr(C)]
pub struct Shared {
    pub status: u32,
    pub trace_len: u32,
    pub state_len: u32,
    pub text_len: u32,
    pub steps: u64,
    pub switches: u64,
    pub diverged: u64,
    pub outcome: u64,
    pub steals: u64,
    pub full: u64,
    /// instructions whose access to memory is not ordered with one of another thread
    pub racy_len: u32,
    pub racy: [u64; MAX_RACY],
    /// accesses checked for that
    pub accesses: u64,
    pub trace: [[u16; 2]; MAX_TRACE],
    pub states: [u64; MAX_TRACE],
    pub text: [u8; MAX_TEXT],
}

/// What happens when no decision says otherwise.
pub enum Base {
    /// the running thread goes on until it waits; then the enabled thread with the lowest number
    RunToBlock,
    /// every step the next enabled thread
    RoundRobin,
    /// every step the enabled thread that comes first in this order; a decision otherwise moves
    /// the threads passed over to the end of the order
    Priority(Vec<usize>),
}

enum Status {
    Ready,
    Blocked(*const dyn Fn() -> bool),
    Timed(*const dyn Fn() -> bool),
    Done,
}

struct Th {
    status: Status,
    word: Box<AtomicU32>,
    progress: u64,
    last: u8,
    expired: bool,
}

struct State {
    threads: Vec<Th>,
    recording: bool,
    prefix: Vec<u16>,
    pos: usize,
    bound: u32,
    used: u32,
    devs: u32,
    devs_used: u32,
    base: Base,
    max_steps: u64,
    spin: u32,
    last_spinner: usize,
    shared: *mut Shared,
    /// while > 0 the running thread is inside the harness and reports nothing
    quiet: u32,
}

static mut STATE: Option<State> = None;
static mut ENABLED: bool = false;

thread_local!(static ME: Cell<usize> = const { Cell::new(usize::MAX) });

#[allow(static_mut_refs)]
#[inline(never)]
fn st() -> &'static mut State {
    unsafe { STATE.as_mut().unwrap() }
}

#[inline(never)]
pub fn me() -> usize {
    ME.with(|m| m.get())
}

/// True on a thread that is under control of the scheduler.
#[inline(never)]
pub fn controlled() -> bool {
    unsafe { ENABLED && me() != usize::MAX }
}

/// Turns the calling thread into thread 0 of a controlled execution.
/// `bound` limits preemptions, `devs` all decisions other than the first alternative.
pub fn init(shared: *mut Shared, prefix: Vec<u16>, bound: u32, devs: u32, base: Base, max_steps: u64) {
    unsafe {
        STATE = Some(State {
            threads: Vec::with_capacity(64),
            recording: false,
            prefix,
            pos: 0,
            bound,
            used: 0,
            devs,
            devs_used: 0,
            base,
            max_steps,
            spin: 0,
            last_spinner: usize::MAX,
            shared,
            quiet: 0,
        });
        ENABLED = true;
    }
    let id = add_thread();
    ME.with(|m| m.set(id));
}

/// Registers a thread that is about to be created by the running one.
pub fn add_thread() -> usize {
    let s = st();
    s.threads.push(Th { status: Status::Ready, word: Box::new(AtomicU32::new(0)), progress: 0, last: 0, expired: false });
    let id = s.threads.len() - 1;
    order_fork(id);
    id
}

/// First thing a created thread does.
pub fn attach(id: usize) {
    ME.with(|m| m.set(id));
    let w: *const AtomicU32 = &*st().threads[id].word;
    wait_word(w);
}

/// Last thing a thread does.
pub fn detach() {
    let s = st();
    let id = me();
    s.threads[id].status = Status::Done;
    ME.with(|m| m.set(usize::MAX));
    let next = pick_blocked(id);
    wake(next);
}

pub fn is_done(id: usize) -> bool {
    matches!(st().threads[id].status, Status::Done)
}

/// Lets all other threads run until they are waiting; no decision is recorded.
pub fn settle() {
    loop {
        let id = me();
        let e = enabled_others(id);
        if e.is_empty() {
            return;
        }
        switch(id, e[0]);
    }
}

/// Decisions are explored from here on.
pub fn go() {
    st().recording = true;
}
pub fn stop() {
    st().recording = false;
}

/// End of the execution: reports the outcome and leaves.
pub fn finish(outcome: u64, text: &str) -> ! {
    let s = st();
    unsafe {
        let sh = &mut *s.shared;
        sh.outcome = outcome;
        let b = text.as_bytes();
        let n = b.len().min(MAX_TEXT);
        sh.text[..n].copy_from_slice(&b[..n]);
        sh.text_len = n as u32;
        std::ptr::write_volatile(&mut sh.status, FINISHED);
        exit_now();
    }
}

fn abort_with(status: u32) -> ! {
    unsafe {
        let sh = &mut *st().shared;
        std::ptr::write_volatile(&mut sh.status, status);
        exit_now();
    }
}

fn exit_now() -> ! {
    unsafe { raw_syscall(231, 0, 0, 0, 0, 0, 0) };
    loop {}
}

#[inline(never)]
pub unsafe fn raw_syscall(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

fn wait_word(w: *const AtomicU32) {
    unsafe {
        loop {
            if (*w).swap(0, Ordering::SeqCst) == 1 {
                return;
            }
            raw_syscall(202, w as usize, 128, 0, 0, 0, 0);
        }
    }
}

fn wake(id: usize) {
    let w: *const AtomicU32 = &*st().threads[id].word;
    unsafe {
        (*w).store(1, Ordering::SeqCst);
        raw_syscall(202, w as usize, 1 | 128, 1, 0, 0, 0);
    }
}

fn enabled(t: &Th) -> bool {
    match t.status {
        Status::Ready => true,
        Status::Blocked(c) | Status::Timed(c) => unsafe { (*c)() },
        Status::Done => false,
    }
}

fn enabled_others(id: usize) -> Vec<usize> {
    let s = st();
    (0..s.threads.len()).filter(|&i| i != id && enabled(&s.threads[i])).collect()
}

/// Alternatives in the order of the base schedule.
fn order(id: usize, mut e: Vec<usize>) -> Vec<usize> {
    let s = st();
    match &s.base {
        Base::RunToBlock => {}
        Base::RoundRobin => {
            let n = s.threads.len();
            e.sort_by_key(|&t| (t + n - id - 1) % n);
        }
        Base::Priority(p) => {
            e.sort_by_key(|t| p.iter().position(|x| x == t).unwrap_or(usize::MAX / 2 + *t));
        }
    }
    e
}

/// Picks one of the threads.
fn pick(e: &[usize]) -> usize {
    let c = choose(e.len());
    if c > 0 {
        if let Base::Priority(p) = &mut st().base {
            for t in &e[..c] {
                p.retain(|x| x != t);
                p.push(*t);
            }
        }
    }
    e[c]
}

fn hash_state(s: &State, id: usize, n: usize) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ (id as u64);
    let mut mix = |v: u64| {
        h ^= v.wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 32;
        h = h.wrapping_mul(0xD6E8FEB86659FD93);
        h ^= h >> 29;
    };
    for t in &s.threads {
        mix(t.progress.wrapping_mul(4)
            + match t.status {
                Status::Ready => 0,
                Status::Blocked(_) => 1,
                Status::Timed(_) => 2,
                Status::Done => 3,
            });
        mix(t.last as u64);
    }
    mix(n as u64);
    h
}

/// Takes a recorded decision among n alternatives.
fn choose(n: usize) -> usize {
    let s = st();
    if !s.recording || n <= 1 || s.devs_used >= s.devs {
        return 0;
    }
    let n = n.min(u16::MAX as usize);
    let mut c = 0;
    let sh = unsafe { &mut *s.shared };
    if s.pos < s.prefix.len() {
        c = s.prefix[s.pos] as usize;
        if c >= n {
            sh.diverged += 1;
            c = n - 1;
        }
    }
    if s.pos >= MAX_TRACE {
        sh.full = 1;
        return 0;
    }
    if c > 0 {
        s.devs_used += 1;
    }
    sh.trace[s.pos] = [c as u16, n as u16];
    s.pos += 1;
    sh.trace_len = s.pos as u32;
    c
}

/// A decision of the code itself (which victim to steal from).
pub fn choose_free(n: usize) -> usize {
    choose(n)
}

pub fn count_steal() {
    unsafe { (*st().shared).steals += 1 };
}

fn note(id: usize, kind: u8) {
    let s = st();
    s.threads[id].progress += 1;
    s.threads[id].last = kind;
    if s.recording {
        let sh = unsafe { &mut *s.shared };
        sh.steps += 1;
        if sh.steps > s.max_steps {
            abort_with(NO_PROGRESS);
        }
        let k = sh.state_len as usize;
        if k < MAX_TRACE {
            sh.states[k] = hash_state(s, id, 0);
            sh.state_len += 1;
        }
    }
}

fn switch(id: usize, to: usize) {
    let s = st();
    unsafe { (*s.shared).switches += 1 };
    s.threads[to].status = Status::Ready;
    let w: *const AtomicU32 = &*s.threads[id].word;
    wake(to);
    wait_word(w);
}

pub const PUSH: u8 = 1;
pub const POP: u8 = 2;
pub const WAIT: u8 = 3;
pub const INJECT: u8 = 4;
pub const SET: u8 = 5;
pub const ATOMIC: u8 = 6;
pub const LOAD: u8 = 7;
pub const GLOBAL: u8 = 8;
pub const FUTEX: u8 = 9;
pub const YIELD: u8 = 10;
pub const THREAD: u8 = 11;
pub const HEAP: u8 = 12;

/// Called before every visible operation: another thread may go first.
#[inline(never)]
pub fn point(kind: u8) {
    if !controlled() {
        return;
    }
    let s = st();
    let id = me();
    if s.quiet > 0 {
        return;
    }
    note(id, kind);
    if kind == LOAD {
        if s.last_spinner == id {
            s.spin += 1;
            if s.spin > 400 {
                s.spin = 0;
                yield_now();
                return;
            }
        } else {
            s.last_spinner = id;
            s.spin = 0;
        }
    } else {
        s.spin = 0;
    }
    if !s.recording {
        return;
    }
    if let Base::RunToBlock = s.base {
        if s.used >= s.bound || s.devs_used >= s.devs {
            return;
        }
    }
    let mut e = enabled_others(id);
    e.insert(0, id);
    let to = pick(&order(id, e));
    if to != id {
        s.used += 1;
        switch(id, to);
    }
}

/// The running thread gives way: any other enabled thread goes next, if there is one.
pub fn yield_now() {
    if !controlled() {
        return;
    }
    let id = me();
    note(id, YIELD);
    let mut e = enabled_others(id);
    if e.is_empty() {
        return;
    }
    // whoever gives way goes to the back: two threads that wait by spinning must not keep a third
    // from ever going on
    let s = st();
    let n = s.threads.len();
    if let Base::Priority(p) = &mut s.base {
        for t in 0..n {
            if !p.contains(&t) {
                p.push(t);
            }
        }
        p.retain(|x| *x != id);
        p.push(id);
    }
    if let Base::RunToBlock = s.base {
        e.sort_by_key(|&t| (t + n - id - 1) % n);
    }
    let to = pick(&order(id, e));
    switch(id, to);
}

fn pick_blocked(id: usize) -> usize {
    let mut e = enabled_others(id);
    if e.is_empty() {
        // only a time-out can help now
        let s = st();
        let t = (0..s.threads.len()).find(|&i| matches!(s.threads[i].status, Status::Timed(_)));
        match t {
            Some(i) => {
                s.threads[i].expired = true;
                e.push(i);
            }
            None => abort_with(DEADLOCK),
        }
    }
    pick(&order(id, e))
}

fn block_as(cond: &dyn Fn() -> bool, timed: bool) -> bool {
    if cond() {
        return true;
    }
    let s = st();
    let id = me();
    note(id, WAIT);
    let c: *const dyn Fn() -> bool = unsafe { std::mem::transmute(cond as *const dyn Fn() -> bool) };
    s.threads[id].expired = false;
    s.threads[id].status = if timed { Status::Timed(c) } else { Status::Blocked(c) };
    let next = pick_blocked(id);
    if next != id {
        switch(id, next);
    }
    let s = st();
    s.threads[id].status = Status::Ready;
    !s.threads[id].expired || cond()
}

/// Waits until the condition holds.
#[inline(never)]
pub fn block(cond: &dyn Fn() -> bool) {
    assert!(controlled(), "blocking outside a controlled execution");
    block_as(cond, false);
}

/// Waits until the condition holds or a time-out; the time-out happens when nothing else can.
pub fn block_timed(cond: &dyn Fn() -> bool) -> bool {
    block_as(cond, true)
}

/// Runs harness code without scheduling points.
pub fn quietly<R>(f: impl FnOnce() -> R) -> R {
    if !controlled() {
        return f();
    }
    st().quiet += 1;
    let r = f();
    st().quiet -= 1;
    r
}

// ------------------------------------------------------------------ unordered accesses
// Vector clocks over the synchronization seen (atomics, futexes, threads, queues and latches of the
// pool). An access to ordinary memory that is not ordered with an access of another thread is
// reported; the explorer then makes its instruction a scheduling point in all executions.

#[derive(Default)]
struct Hash(u64);
impl std::hash::Hasher for Hash {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x9E3779B97F4A7C15);
        }
    }
    fn write_usize(&mut self, x: usize) {
        let h = (x as u64 ^ (x as u64 >> 32)).wrapping_mul(0x9E3779B97F4A7C15);
        self.0 = h ^ (h >> 29);
    }
}
type Map<V> = std::collections::HashMap<usize, V, std::hash::BuildHasherDefault<Hash>>;
type Clock = Vec<u32>;

#[derive(Default)]
struct Access {
    write: Option<(usize, u32, u64)>,
    reads: Vec<(usize, u32, u64)>,
}

struct Order {
    clocks: Vec<Clock>,
    sync: Map<Clock>,
    cells: Map<Access>,
    points: Vec<u64>,
}
static mut ORDER: Option<Order> = None;
static mut ORDERING: bool = false;

#[allow(static_mut_refs)]
fn ord() -> Option<&'static mut Order> {
    unsafe {
        if ORDERING {
            ORDER.as_mut()
        } else {
            None
        }
    }
}

/// Switches the check on; `points` are the instructions that are scheduling points.
pub fn check_order(points: Vec<u64>) {
    unsafe {
        ORDER = Some(Order { clocks: vec![], sync: Map::default(), cells: Map::default(), points });
        ORDERING = true;
    }
    if let Some(o) = ord() {
        clock(o, me());
    }
}

fn clock(o: &mut Order, t: usize) -> &mut Clock {
    while o.clocks.len() <= t {
        let n = o.clocks.len();
        let mut c = vec![0; n + 1];
        c[n] = 1;
        o.clocks.push(c);
    }
    &mut o.clocks[t]
}

fn join_into(a: &mut Clock, b: &Clock) {
    if a.len() < b.len() {
        a.resize(b.len(), 0);
    }
    for (x, y) in a.iter_mut().zip(b) {
        *x = (*x).max(*y);
    }
}

/// The running thread publishes through the object at this address.
#[inline(never)]
pub fn release(addr: usize) {
    if let (true, Some(o)) = (controlled(), ord()) {
        let t = me();
        let c = clock(o, t).clone();
        join_into(o.sync.entry(addr).or_default(), &c);
        clock(o, t)[t] += 1;
    }
}
/// The running thread sees what was published through the object at this address.
#[inline(never)]
pub fn acquire(addr: usize) {
    if let (true, Some(o)) = (controlled(), ord()) {
        if let Some(c) = o.sync.get(&addr).cloned() {
            join_into(clock(o, me()), &c);
        }
    }
}
fn order_fork(child: usize) {
    if let Some(o) = ord() {
        let t = me();
        if t == usize::MAX {
            return;
        }
        let c = clock(o, t).clone();
        join_into(clock(o, child), &c);
        clock(o, t)[t] += 1;
    }
}
/// The running thread has waited for the end of another.
pub fn order_join(child: usize) {
    if let Some(o) = ord() {
        let c = clock(o, child).clone();
        join_into(clock(o, me()), &c);
    }
}
/// Memory that was given back.
#[inline(never)]
pub fn forget(addr: usize, len: usize) {
    if let (true, Some(o)) = (controlled(), ord()) {
        if len / 8 > o.cells.len() {
            o.cells.retain(|a, _| *a < (addr & !7) || *a >= addr + len);
            return;
        }
        let mut a = addr & !7;
        while a < addr + len {
            o.cells.remove(&a);
            a += 8;
        }
    }
}

/// An access of instrumented code to ordinary memory.
#[inline(never)]
pub fn plain_access(addr: usize, len: usize, write: bool, pc: u64) {
    if unsafe { !ORDERING } || !controlled() || !st().recording {
        return;
    }
    let o = ord().unwrap();
    if o.points.contains(&pc) {
        point(HEAP);
    }
    let o = ord().unwrap();
    let t = me();
    clock(o, t);
    let sh = unsafe { &mut *st().shared };
    let mine = o.clocks[t].clone();
    let seen = |e: &(usize, u32, u64)| e.0 == t || mine.get(e.0).copied().unwrap_or(0) >= e.1;
    let mut checked = 0;
    let mut report = |pc: u64| {
        if (sh.racy_len as usize) < MAX_RACY && !sh.racy[..sh.racy_len as usize].contains(&pc) {
            sh.racy[sh.racy_len as usize] = pc;
            sh.racy_len += 1;
        }
    };
    let me_now = (t, mine[t], pc);
    let mut a = addr & !7;
    let mut n = 0;
    while a < addr + len && n < 1024 {
        checked += 1;
        let c = o.cells.entry(a).or_default();
        if let Some(w) = &c.write {
            if !seen(w) {
                report(w.2);
                report(pc);
            }
        }
        if write {
            for r in &c.reads {
                if !seen(r) {
                    report(r.2);
                    report(pc);
                }
            }
            c.reads.clear();
            c.write = Some(me_now);
        } else {
            c.reads.retain(|r| r.0 != t);
            c.reads.push(me_now);
        }
        a += 8;
        n += 1;
    }
    sh.accesses += checked;
}
