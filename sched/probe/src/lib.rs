//! Programs with known schedule-dependent faults, compiled like the crates of /repo: the explorer
//! must find each fault at the stated bounds (and nothing in the correct ones).
use rayon::prelude::*;
use std::cell::RefCell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Mutex, RwLock};

static mut PLAIN: u64 = 0;
static ATOMIC: AtomicU64 = AtomicU64::new(0);
static A: Mutex<u64> = Mutex::new(0);
static B: Mutex<u64> = Mutex::new(0);
static CACHE: RwLock<Option<u64>> = RwLock::new(None);
static READY: AtomicBool = AtomicBool::new(false);

/// lost update on a plain global
pub fn plain_counter() -> u64 {
    rayon::join(|| unsafe { PLAIN += 1 }, || unsafe { PLAIN += 1 });
    unsafe { PLAIN }
}
/// correct
pub fn atomic_counter() -> u64 {
    rayon::join(|| ATOMIC.fetch_add(1, Relaxed), || ATOMIC.fetch_add(1, Relaxed));
    ATOMIC.load(Relaxed)
}
/// lost update between an atomic load and store
pub fn split_counter() -> u64 {
    let f = || {
        let x = ATOMIC.load(SeqCst);
        ATOMIC.store(x + 1, SeqCst);
    };
    rayon::join(f, f);
    ATOMIC.load(SeqCst)
}
/// correct
pub fn locked_counter() -> u64 {
    rayon::join(|| *A.lock().unwrap() += 1, || *A.lock().unwrap() += 1);
    let x = *A.lock().unwrap();
    x
}
/// deadlock: locks taken in both orders
pub fn lock_order() -> u64 {
    rayon::join(
        || {
            let a = A.lock().unwrap();
            let b = B.lock().unwrap();
            *a + *b
        },
        || {
            let b = B.lock().unwrap();
            let a = A.lock().unwrap();
            *a + *b
        },
    );
    0
}
/// deadlock: a lock held across a join whose other side takes it and is run by the same worker
pub fn lock_across_join() -> u64 {
    let f = || {
        let g = A.lock().unwrap();
        rayon::join(|| (), || ());
        *g
    };
    rayon::join(|| rayon::join(f, f), || rayon::join(f, f));
    0
}
/// result depends on which of two comes first
pub fn first_wins() -> u64 {
    (0..3u64).into_par_iter().for_each(|i| {
        let mut c = CACHE.write().unwrap();
        if c.is_none() {
            *c = Some(i);
        }
    });
    CACHE.read().unwrap().unwrap()
}
thread_local!(static BUF: RefCell<Vec<u64>> = const { RefCell::new(vec![]) });
/// a thread-local buffer borrowed across a parallel call: a stolen job borrows it again
pub fn borrowed_across_join() -> u64 {
    let f = || {
        BUF.with(|b| {
            let mut b = b.borrow_mut();
            b.push(1);
            rayon::join(|| (), || ());
        })
    };
    rayon::join(|| rayon::join(f, f), || rayon::join(f, f));
    0
}
/// never ends under any schedule in which the waiting side's worker has to run the other side
pub fn spin_for_sibling() -> u64 {
    rayon::join(
        || {
            while !READY.load(SeqCst) {
                std::hint::spin_loop();
            }
        },
        || READY.store(true, SeqCst),
    );
    0
}
/// order of completion instead of order of columns
pub fn completion_order() -> Vec<u64> {
    let v = Mutex::new(vec![]);
    (0..3u64).into_par_iter().for_each(|i| v.lock().unwrap().push(i));
    v.into_inner().unwrap()
}
/// shared heap memory written through a pointer without synchronization
pub fn heap_race() -> u64 {
    struct P(*mut u64);
    unsafe impl Sync for P {}
    let mut x = Box::new(0u64);
    let p = P(&mut *x);
    let p = &p;
    rayon::join(move || unsafe { *p.0 += 1 }, move || unsafe { *p.0 += 1 });
    *x
}
/// correct
pub fn ordered_sum() -> u64 {
    let v: Vec<u64> = (0..6u64).into_par_iter().map(|i| i * i).collect();
    v.iter().sum()
}
