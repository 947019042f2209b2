//! Stand-ins without synchronization: one thread runs at a time, so plain memory is enough, and the
//! runtime's own bookkeeping does not show up as visible operations of the code under test.
use crate::sched;
use std::cell::UnsafeCell;
use std::collections::VecDeque;
use std::fmt;
use std::sync::atomic::Ordering;
use std::sync::Arc;

pub struct AtomicUsize(UnsafeCell<usize>);
unsafe impl Sync for AtomicUsize {}
unsafe impl Send for AtomicUsize {}
impl fmt::Debug for AtomicUsize {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.load(Ordering::SeqCst))
    }
}
impl AtomicUsize {
    pub const fn new(v: usize) -> Self {
        AtomicUsize(UnsafeCell::new(v))
    }
    fn sync(&self) {
        sched::acquire(self as *const _ as usize);
        sched::release(self as *const _ as usize);
    }
    #[inline(never)]
    pub fn load(&self, _: Ordering) -> usize {
        sched::acquire(self as *const _ as usize);
        unsafe { *self.0.get() }
    }
    #[inline(never)]
    pub fn swap(&self, v: usize, _: Ordering) -> usize {
        self.sync();
        unsafe { std::mem::replace(&mut *self.0.get(), v) }
    }
    #[inline(never)]
    pub fn fetch_add(&self, v: usize, _: Ordering) -> usize {
        self.sync();
        unsafe {
            let o = *self.0.get();
            *self.0.get() = o.wrapping_add(v);
            o
        }
    }
    #[inline(never)]
    pub fn fetch_sub(&self, v: usize, _: Ordering) -> usize {
        self.sync();
        unsafe {
            let o = *self.0.get();
            *self.0.get() = o.wrapping_sub(v);
            o
        }
    }
}

pub enum Steal<T> {
    Success(T),
    Empty,
    #[allow(dead_code)]
    Retry,
}

struct Q<T>(UnsafeCell<VecDeque<T>>);
unsafe impl<T: Send> Sync for Q<T> {}
unsafe impl<T: Send> Send for Q<T> {}

pub struct Worker<T> {
    q: Arc<Q<T>>,
    fifo: bool,
}
pub struct Stealer<T> {
    q: Arc<Q<T>>,
}
pub struct Injector<T> {
    q: Q<T>,
}
impl<T> Q<T> {
    fn new() -> Self {
        Q(UnsafeCell::new(VecDeque::new()))
    }
    #[allow(clippy::mut_from_ref)]
    fn get(&self) -> &mut VecDeque<T> {
        unsafe { &mut *self.0.get() }
    }
    fn steal(&self) -> Steal<T> {
        sched::acquire(self as *const _ as usize);
        match self.get().pop_front() {
            Some(x) => Steal::Success(x),
            None => Steal::Empty,
        }
    }
}
impl<T> Worker<T> {
    pub fn new_fifo() -> Self {
        Worker { q: Arc::new(Q::new()), fifo: true }
    }
    pub fn new_lifo() -> Self {
        Worker { q: Arc::new(Q::new()), fifo: false }
    }
    pub fn stealer(&self) -> Stealer<T> {
        Stealer { q: self.q.clone() }
    }
    pub fn is_empty(&self) -> bool {
        self.q.get().is_empty()
    }
    pub fn push(&self, x: T) {
        sched::release(&*self.q as *const _ as usize);
        self.q.get().push_back(x)
    }
    pub fn pop(&self) -> Option<T> {
        if self.fifo {
            self.q.get().pop_front()
        } else {
            self.q.get().pop_back()
        }
    }
}
impl<T> Stealer<T> {
    pub fn is_empty(&self) -> bool {
        self.q.get().is_empty()
    }
    pub fn steal(&self) -> Steal<T> {
        self.q.steal()
    }
}
impl<T> Injector<T> {
    pub fn new() -> Self {
        Injector { q: Q::new() }
    }
    pub fn is_empty(&self) -> bool {
        self.q.get().is_empty()
    }
    pub fn push(&self, x: T) {
        sched::release(&self.q as *const _ as usize);
        self.q.get().push_back(x)
    }
    pub fn steal(&self) -> Steal<T> {
        self.q.steal()
    }
}
