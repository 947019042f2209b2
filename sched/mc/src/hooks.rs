//! What the instrumented crates of /repo and the standard library call: every atomic operation and
//! every access to a writable global of the program is a scheduling point; threads, futexes, yields
//! and sleeps go through the scheduler.
use rayon_core::sched;
use std::ffi::c_void;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::atomic::*;

extern "C" {
    static mut __data_start: u8;
    static mut _end: u8;
}

#[inline(always)]
fn global(a: usize) -> bool {
    let (lo, hi) = (&raw const __data_start as usize, &raw const _end as usize);
    a >= lo && a < hi
}
/// A plain access of `len` bytes by the instruction before `pc`.
fn access(a: usize, pc: usize, len: usize, write: bool) {
    if global(a) {
        sched::point(sched::GLOBAL);
    } else {
        sched::plain_access(a, len, write, pc as u64);
    }
}

macro_rules! accesses {
    ($len:expr, $write:expr, $im:ident: $($n:ident)*) => {
        extern "C" fn $im(a: usize, pc: usize) {
            access(a, pc, $len, $write)
        }
        // the second argument is the return address
        $(#[no_mangle]
        #[unsafe(naked)]
        pub unsafe extern "C" fn $n(a: *const c_void) {
            std::arch::naked_asm!("mov rsi, [rsp]", "jmp {}", sym $im)
        })*
    };
}
accesses! { 1, false, r1: __tsan_read1 __tsan_volatile_read1 __tsan_vptr_read }
accesses! { 2, false, r2: __tsan_read2 __tsan_volatile_read2 __tsan_unaligned_read2 }
accesses! { 4, false, r4: __tsan_read4 __tsan_volatile_read4 __tsan_unaligned_read4 }
accesses! { 8, false, r8: __tsan_read8 __tsan_volatile_read8 __tsan_unaligned_read8 }
accesses! { 16, false, r16: __tsan_read16 __tsan_volatile_read16 __tsan_unaligned_read16 }
accesses! { 1, true, w1: __tsan_write1 __tsan_volatile_write1 __tsan_read_write1 }
accesses! { 2, true, w2: __tsan_write2 __tsan_volatile_write2 __tsan_read_write2 __tsan_unaligned_write2 __tsan_unaligned_read_write2 }
accesses! { 4, true, w4: __tsan_write4 __tsan_volatile_write4 __tsan_read_write4 __tsan_unaligned_write4 __tsan_unaligned_read_write4 }
accesses! { 8, true, w8: __tsan_write8 __tsan_volatile_write8 __tsan_read_write8 __tsan_unaligned_write8 __tsan_unaligned_read_write8 }
accesses! { 16, true, w16: __tsan_write16 __tsan_volatile_write16 __tsan_read_write16 __tsan_unaligned_write16 __tsan_unaligned_read_write16 }

extern "C" fn vptr(a: usize, _: usize, pc: usize) {
    access(a, pc, 8, true)
}
extern "C" fn read_range(a: usize, n: usize, pc: usize) {
    access(a, pc, n, false)
}
extern "C" fn write_range(a: usize, n: usize, pc: usize) {
    access(a, pc, n, true)
}
macro_rules! ranges {
    ($($n:ident $im:ident)*) => {
        $(#[no_mangle]
        #[unsafe(naked)]
        pub unsafe extern "C" fn $n(a: *const c_void, n: usize) {
            std::arch::naked_asm!("mov rdx, [rsp]", "jmp {}", sym $im)
        })*
    };
}
ranges! { __tsan_vptr_update vptr __tsan_read_range read_range __tsan_write_range write_range }
#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_: *const c_void) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_end() {}
unsafe extern "C" fn do_memcpy(d: *mut c_void, s: *const c_void, n: usize, pc: usize) -> *mut c_void {
    access(s as usize, pc, n, false);
    access(d as usize, pc, n, true);
    libc::memcpy(d, s, n)
}
unsafe extern "C" fn do_memmove(d: *mut c_void, s: *const c_void, n: usize, pc: usize) -> *mut c_void {
    access(s as usize, pc, n, false);
    access(d as usize, pc, n, true);
    libc::memmove(d, s, n)
}
unsafe extern "C" fn do_memset(d: *mut c_void, c: i32, n: usize, pc: usize) -> *mut c_void {
    access(d as usize, pc, n, true);
    libc::memset(d, c, n)
}
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
    std::arch::naked_asm!("mov rcx, [rsp]", "jmp {}", sym do_memcpy)
}
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_memmove(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
    std::arch::naked_asm!("mov rcx, [rsp]", "jmp {}", sym do_memmove)
}
#[no_mangle]
#[unsafe(naked)]
pub unsafe extern "C" fn __tsan_memset(d: *mut c_void, c: i32, n: usize) -> *mut c_void {
    std::arch::naked_asm!("mov rcx, [rsp]", "jmp {}", sym do_memset)
}

/// Every atomic operation orders as if it were sequentially consistent.
fn sync(p: usize) {
    sched::acquire(p);
    sched::release(p);
}

macro_rules! atomics {
    ($t:ty, $a:ty, $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident $casw:ident $casv:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *const $a, _: i32) -> $t {
            sched::point(sched::LOAD);
            sched::acquire(p as usize);
            (*p).load(SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *const $a, v: $t, _: i32) {
            sched::point(sched::ATOMIC);
            sync(p as usize);
            (*p).store(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(p: *const $a, v: $t, _: i32) -> $t {
            sched::point(sched::ATOMIC);
            sync(p as usize);
            (*p).swap(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $add(p: *const $a, v: $t, _: i32) -> $t {
            sched::point(sched::ATOMIC);
            sync(p as usize);
            (*p).fetch_add(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(p: *const $a, v: $t, _: i32) -> $t {
            sched::point(sched::ATOMIC);
            sync(p as usize);
            (*p).fetch_sub(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $and(p: *const $a, v: $t, _: i32) -> $t {
            sched::point(sched::ATOMIC);
            sync(p as usize);
            (*p).fetch_and(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $or(p: *const $a, v: $t, _: i32) -> $t {
            sched::point(sched::ATOMIC);
            sync(p as usize);
            (*p).fetch_or(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(p: *const $a, v: $t, _: i32) -> $t {
            sched::point(sched::ATOMIC);
            sync(p as usize);
            (*p).fetch_xor(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $nand(p: *const $a, v: $t, _: i32) -> $t {
            sched::point(sched::ATOMIC);
            sync(p as usize);
            (*p).fetch_nand(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *const $a, c: *mut $t, v: $t, _: i32, _: i32) -> i32 {
            sched::point(sched::LOAD);
            sync(p as usize);
            match (*p).compare_exchange(*c, v, SeqCst, SeqCst) {
                Ok(_) => 1,
                Err(x) => {
                    *c = x;
                    0
                }
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $casw(p: *const $a, c: *mut $t, v: $t, a: i32, b: i32) -> i32 {
            $cas(p, c, v, a, b)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $casv(p: *const $a, c: $t, v: $t, _: i32, _: i32) -> $t {
            sched::point(sched::LOAD);
            sync(p as usize);
            match (*p).compare_exchange(c, v, SeqCst, SeqCst) {
                Ok(x) => x,
                Err(x) => x,
            }
        }
    };
}
atomics!(u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak __tsan_atomic8_compare_exchange_val);
atomics!(u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak __tsan_atomic16_compare_exchange_val);
atomics!(u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak __tsan_atomic32_compare_exchange_val);
atomics!(u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak __tsan_atomic64_compare_exchange_val);

#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    fence(SeqCst)
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {}

// ------------------------------------------------------------------ threads

type Start = extern "C" fn(*mut c_void) -> *mut c_void;
static mut CREATED: Vec<(libc::pthread_t, usize)> = Vec::new();

unsafe fn real(name: &[u8]) -> *mut c_void {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const _);
    assert!(!p.is_null());
    p
}

extern "C" fn tramp(p: *mut c_void) -> *mut c_void {
    let (id, start, arg) = *unsafe { Box::from_raw(p as *mut (usize, Start, usize)) };
    sched::attach(id);
    let r = start(arg as *mut c_void);
    sched::detach();
    r
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, attr: *const c_void, start: Start, arg: *mut c_void) -> i32 {
    let f: extern "C" fn(*mut libc::pthread_t, *const c_void, Start, *mut c_void) -> i32 = std::mem::transmute(real(b"pthread_create\0"));
    if !sched::controlled() {
        return f(t, attr, start, arg);
    }
    sched::point(sched::THREAD);
    let id = sched::add_thread();
    let b = Box::into_raw(Box::new((id, start, arg as usize)));
    let r = f(t, attr, tramp, b as *mut c_void);
    assert!(r == 0, "pthread_create failed");
    #[allow(static_mut_refs)]
    CREATED.push((*t, id));
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, ret: *mut *mut c_void) -> i32 {
    let f: extern "C" fn(libc::pthread_t, *mut *mut c_void) -> i32 = std::mem::transmute(real(b"pthread_join\0"));
    if sched::controlled() {
        #[allow(static_mut_refs)]
        let id = CREATED.iter().rev().find(|c| c.0 == t).map(|c| c.1);
        if let Some(id) = id {
            sched::point(sched::THREAD);
            sched::block(&|| sched::is_done(id));
            sched::order_join(id);
        }
    }
    f(t, ret)
}

// ------------------------------------------------------------------ futex, yield, sleep, random

static mut WAITERS: Vec<(usize, usize, bool)> = Vec::new(); // (address, ticket, woken)
static mut TICKET: usize = 0;

unsafe fn errno(e: i32) -> isize {
    *libc::__errno_location() = e;
    -1
}

#[allow(static_mut_refs)]
unsafe fn futex(addr: usize, op: usize, val: usize, timeout: usize) -> isize {
    match op & 0x7f {
        0 | 9 => {
            sched::point(sched::FUTEX);
            if (*(addr as *const AtomicU32)).load(SeqCst) != val as u32 {
                return errno(libc::EAGAIN);
            }
            TICKET += 1;
            let t = TICKET;
            WAITERS.push((addr, t, false));
            let woken = move || WAITERS.iter().any(|w| w.1 == t && w.2);
            let ok = if timeout == 0 {
                sched::block(&woken);
                true
            } else {
                sched::block_timed(&woken)
            };
            sched::acquire(addr);
            WAITERS.retain(|w| w.1 != t);
            if ok {
                0
            } else {
                errno(libc::ETIMEDOUT)
            }
        }
        1 | 10 => {
            sched::point(sched::FUTEX);
            sched::release(addr);
            let mut n = 0;
            for w in WAITERS.iter_mut() {
                if w.0 == addr && !w.2 && n < val {
                    w.2 = true;
                    n += 1;
                }
            }
            n as isize
        }
        _ => errno(libc::ENOSYS),
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    if n == libc::SYS_futex as usize && sched::controlled() {
        return futex(a, b, c, d);
    }
    let r = sched::raw_syscall(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        return errno(-r as i32);
    }
    r
}

#[no_mangle]
pub extern "C" fn sched_yield() -> i32 {
    sched::yield_now();
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const c_void, b: *mut c_void) -> i32 {
    if sched::controlled() {
        sched::yield_now();
        return 0;
    }
    sched::raw_syscall(libc::SYS_nanosleep as usize, a as usize, b as usize, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: i32, fl: i32, a: *const c_void, b: *mut c_void) -> i32 {
    if sched::controlled() {
        sched::yield_now();
        return 0;
    }
    -sched::raw_syscall(libc::SYS_clock_nanosleep as usize, c as usize, fl as usize, a as usize, b as usize, 0, 0) as i32
}
/// Hash seeds are the same in every execution.
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _: u32) -> isize {
    for i in 0..n {
        *p.add(i) = (i as u8).wrapping_mul(37).wrapping_add(11);
    }
    n as isize
}

/// Memory given back starts afresh when it is handed out again.
struct Alloc;
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        sched::forget(p as usize, l.size());
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        sched::forget(p as usize, l.size());
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Alloc = Alloc;
