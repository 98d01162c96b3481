//! The seams: everything the library can observe besides its arguments.
//!
//! * basic-block callbacks (inserted by the compiler into the library only):
//!   progress meter, coverage, preemption points of simulated threads;
//! * the global allocator: meters and failure injection;
//! * libc entry points std calls: futex, getrandom, clocks, sleeps, memmove.
use std::alloc::{GlobalAlloc, Layout, System};
use std::any::Any;
use std::cell::Cell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

/// Which of the four builds this is (see ../../build.sh).
pub const BUILD: &str = match option_env!("VSIM_VARIANT") { Some(v) => v, None => "checked" };
pub const NGUARD: usize = 1 << 17;

/// Memory shared between the driver and the process that executes a chunk of runs.
#[repr(C)]
pub struct Shared {
    pub run: AtomicU64,
    pub hang: AtomicU64,
    pub hang_steps: AtomicU64,
    pub len: AtomicUsize,
    pub cov: [AtomicU8Cell; NGUARD],
    pub buf: [u8; SHBUF],
}
pub type AtomicU8Cell = std::sync::atomic::AtomicU8;
pub const SHBUF: usize = 8 << 20;

pub static mut SHARED: *mut Shared = std::ptr::null_mut();

pub struct Ts {
    /// inside a call into the library
    pub on: Cell<bool>,
    /// simulated thread number, or -1
    pub sim: Cell<i32>,
    pub steps: Cell<u64>,
    pub limit: Cell<u64>,
    pub allocs: Cell<u64>,
    pub bytes: Cell<u64>,
    pub moved: Cell<u64>,
    /// allocations until failure, -1 = never
    pub fail: Cell<i64>,
    pub fail_forever: Cell<bool>,
    pub fired: Cell<u64>,
    pub rnd: Cell<u64>,
    pub rnd_calls: Cell<u64>,
    pub clk_calls: Cell<u64>,
    /// the harness is formatting a value of the library
    pub reading: Cell<bool>,
}

thread_local! {
    pub static TS: Ts = const { Ts {
        on: Cell::new(false), sim: Cell::new(-1), steps: Cell::new(0), limit: Cell::new(u64::MAX),
        allocs: Cell::new(0), bytes: Cell::new(0), moved: Cell::new(0),
        fail: Cell::new(-1), fail_forever: Cell::new(false), fired: Cell::new(0),
        rnd: Cell::new(1), rnd_calls: Cell::new(0), clk_calls: Cell::new(0), reading: Cell::new(false),
    } };
}

pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static CLOCK: AtomicU64 = AtomicU64::new(1_700_000_000_000_000_000);
pub static CLOCK_STEP: AtomicU64 = AtomicU64::new(1000);
/// What happens to the clocks between two readings: a microsecond, nothing, jumps ahead or back.
pub fn clock_jumps(kind: usize) {
    CLOCK_STEP.store([1000, 0, 1_000_000_000, 3_600_000_000_000, 1_000_000_000_u64.wrapping_neg(), u64::MAX][kind % 6], SeqCst);
}
pub static GUARDS: AtomicU32 = AtomicU32::new(0);
pub static THREADS_ON: AtomicBool = AtomicBool::new(false);

pub const HANG_EXIT: i32 = 77;
pub const HANG_STEPS: u64 = 1;
pub const HANG_LOCK: u64 = 2;
pub const HANG_DEADLOCK: u64 = 3;
pub const HANG_STALLED: u64 = 4;
pub const HANG_MEMORY: u64 = 5;
/// A single call that asks for more than this in total is stopped.
const RUNAWAY: u64 = 8 << 30;

// ---------------------------------------------------------------- libc

extern "C" {
    fn __errno_location() -> *mut i32;
    fn _exit(code: i32) -> !;
}

pub fn exit_now(code: i32) -> ! {
    unsafe { _exit(code) }
}

/// A raw system call.
#[inline]
pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    r
}

unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

const SYS_FUTEX: i64 = 202;

/// std reaches futex through this symbol: locks taken inside the library become
/// scheduling events of the simulator.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == 332 {
        if let Some(k) = host() { return ret(sim_statx(k, e as *mut u8)); }
    }
    if n == SYS_FUTEX {
        let (on, sim) = TS.with(|t| (t.on.get(), t.sim.get()));
        let op = b & 0x7f;
        if on && (op == 0 || op == 9) {
            // FUTEX_WAIT / FUTEX_WAIT_BITSET
            let cur = (*(a as *const AtomicU32)).load(SeqCst);
            if cur != c as u32 {
                return ret(-11);
            }
            if sim >= 0 {
                return ret(crate::thr::futex_wait(a as usize, d != 0));
            }
            if d == 0 {
                hang(HANG_LOCK);
            }
            CLOCK.fetch_add(1_000_000, Relaxed);
            return ret(-110);
        }
        if sim >= 0 && (op == 1 || op == 10) {
            crate::thr::futex_wake(a as usize, c);
        }
    }
    ret(raw(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _flags: u32) -> isize {
    TS.with(|t| {
        t.rnd_calls.set(t.rnd_calls.get() + 1);
        let mut x = t.rnd.get();
        for i in 0..n {
            *p.add(i) = (crate::rng::splitmix(&mut x) >> 24) as u8;
        }
        t.rnd.set(x);
    });
    n as isize
}

/// What every environment variable reads as from inside the library (0: unset).
pub static ENVIRON: AtomicU32 = AtomicU32::new(0);
static ENV_VALUES: [&[u8]; 5] = [b"\0", b"0\0", b"1\0", b"true\0", b"strict,legacy=2\0"];

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    if TS.with(|t| t.on.get()) {
        let k = ENVIRON.load(Relaxed) as usize;
        return if k == 0 { std::ptr::null() } else { ENV_VALUES[(k - 1) % ENV_VALUES.len()].as_ptr() };
    }
    extern "C" { static environ: *const *const u8; }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let (mut a, mut b) = (*e, name);
        while *b != 0 && *a == *b { a = a.add(1); b = b.add(1); }
        if *b == 0 && *a == b'=' { return a.add(1); }
        e = e.add(1);
    }
    std::ptr::null()
}

/// The host as the library sees it: which paths exist, the process id, the processor count.
pub static HOST: AtomicU32 = AtomicU32::new(0);

fn host() -> Option<u32> {
    TS.with(|t| if t.on.get() { Some(HOST.load(Relaxed)) } else { None })
}

/// A simulated answer to `statx`: nothing exists, everything is a folder, everything is a file.
unsafe fn sim_statx(k: u32, buf: *mut u8) -> i64 {
    if k % 3 == 0 { return -2; }
    std::ptr::write_bytes(buf, 0, 256);
    *(buf as *mut u32) = 0x7ff;
    *(buf.add(16) as *mut u32) = 1;
    *(buf.add(28) as *mut u16) = if k % 3 == 1 { 0o040755 } else { 0o100644 };
    *(buf.add(40) as *mut u64) = k as u64 * 4096;
    0
}

#[no_mangle]
pub unsafe extern "C" fn statx(dir: i32, path: *const u8, flags: i32, mask: u32, buf: *mut u8) -> i32 {
    match host() {
        Some(k) => ret(sim_statx(k, buf)) as i32,
        None => ret(raw(332, dir as i64, path as i64, flags as i64, mask as i64, buf as i64, 0)) as i32,
    }
}

unsafe fn sim_open(k: u32) -> i64 {
    match k % 3 { 0 => -2, 1 => -13, _ => raw(257, -100, b"/dev/null\0".as_ptr() as i64, 0o2000000, 0, 0, 0) }
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    ret(match host() { Some(k) => sim_open(k), None => raw(257, -100, path as i64, flags as i64, mode as i64, 0, 0) }) as i32
}

#[no_mangle]
pub unsafe extern "C" fn access(path: *const u8, mode: i32) -> i32 {
    ret(match host() { Some(k) => if k % 3 == 0 { -2 } else { 0 }, None => raw(21, path as i64, mode as i64, 0, 0, 0, 0) }) as i32
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    match host() { Some(k) => 2 + k as i32 * 977, None => raw(39, 0, 0, 0, 0, 0, 0) as i32 }
}

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, set: *mut u8) -> i32 {
    if let Some(k) = host() {
        std::ptr::write_bytes(set, 0, n);
        for i in 0..=(k as usize * 3 % 64).min(n * 8 - 1) { *set.add(i / 8) |= 1 << (i % 8); }
        return 0;
    }
    let r = raw(204, pid as i64, n as i64, set as i64, 0, 0, 0);
    if r < 0 { return ret(r) as i32; }
    if (r as usize) < n { std::ptr::write_bytes(set.add(r as usize), 0, n - r as usize); }
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32 {
    if TS.with(|t| { t.on.get() && { t.clk_calls.set(t.clk_calls.get() + 1); true } }) {
        let now = CLOCK.fetch_add(CLOCK_STEP.load(Relaxed), Relaxed);
        let now = now as i64;
        *ts = [now.div_euclid(1_000_000_000), now.rem_euclid(1_000_000_000)];
        return 0;
    }
    ret(raw(228, clk as i64, ts as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if TS.with(|t| t.on.get()) {
        CLOCK.fetch_add(((*req)[0] as u64).wrapping_mul(1_000_000_000).wrapping_add((*req)[1] as u64), Relaxed);
        crate::thr::yield_point();
        return 0;
    }
    ret(raw(35, req as i64, rem as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, flags: i32, req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if TS.with(|t| t.on.get()) {
        CLOCK.fetch_add(((*req)[0] as u64).wrapping_mul(1_000_000_000).wrapping_add((*req)[1] as u64), Relaxed);
        crate::thr::yield_point();
        return 0;
    }
    (-raw(230, clk as i64, flags as i64, req as i64, rem as i64, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if TS.with(|t| t.on.get()) {
        crate::thr::yield_point();
        return 0;
    }
    ret(raw(24, 0, 0, 0, 0, 0, 0)) as i32
}

// Moving, copying, filling and comparing memory is work no basic-block counter sees;
// meter it.

type Mem = unsafe extern "C" fn(*mut u8, *const u8, usize) -> *mut u8;
type Fill = unsafe extern "C" fn(*mut u8, i32, usize) -> *mut u8;
type Cmp = unsafe extern "C" fn(*const u8, *const u8, usize) -> i32;
static mut MEMMOVE: Option<Mem> = None;
static mut MEMCPY: Option<Mem> = None;
static mut MEMSET: Option<Fill> = None;
static mut MEMCMP: Option<Cmp> = None;

extern "C" {
    fn dlsym(h: *mut u8, name: *const u8) -> *mut u8;
}

fn find_mem() {
    unsafe {
        let next = -1isize as *mut u8;
        MEMMOVE = std::mem::transmute::<*mut u8, Option<Mem>>(dlsym(next, b"memmove\0".as_ptr()));
        MEMCPY = std::mem::transmute::<*mut u8, Option<Mem>>(dlsym(next, b"memcpy\0".as_ptr()));
        MEMSET = std::mem::transmute::<*mut u8, Option<Fill>>(dlsym(next, b"memset\0".as_ptr()));
        MEMCMP = std::mem::transmute::<*mut u8, Option<Cmp>>(dlsym(next, b"memcmp\0".as_ptr()));
    }
}

#[inline(always)]
fn moved(n: usize) {
    TS.with(|t| if t.on.get() { t.moved.set(t.moved.get() + n as u64) });
}

#[no_mangle]
pub unsafe extern "C" fn memmove(dst: *mut u8, src: *const u8, n: usize) -> *mut u8 {
    moved(n);
    if let Some(f) = MEMMOVE { return f(dst, src, n); }
    if (dst as usize).wrapping_sub(src as usize) >= n {
        std::arch::asm!("rep movsb", inout("rdi") dst => _, inout("rsi") src => _, inout("rcx") n => _,
            options(nostack, preserves_flags));
    } else {
        std::arch::asm!("std", "rep movsb", "cld",
            inout("rdi") dst.add(n).sub(1) => _, inout("rsi") src.add(n).sub(1) => _, inout("rcx") n => _,
            options(nostack));
    }
    dst
}

#[no_mangle]
pub unsafe extern "C" fn memcpy(dst: *mut u8, src: *const u8, n: usize) -> *mut u8 {
    moved(n);
    if let Some(f) = MEMCPY { return f(dst, src, n); }
    std::arch::asm!("rep movsb", inout("rdi") dst => _, inout("rsi") src => _, inout("rcx") n => _,
        options(nostack, preserves_flags));
    dst
}

#[no_mangle]
pub unsafe extern "C" fn memset(dst: *mut u8, v: i32, n: usize) -> *mut u8 {
    moved(n);
    if let Some(f) = MEMSET { return f(dst, v, n); }
    std::arch::asm!("rep stosb", inout("rdi") dst => _, inout("rcx") n => _, in("al") v as u8,
        options(nostack, preserves_flags));
    dst
}

#[no_mangle]
pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    moved(n);
    if let Some(f) = MEMCMP { return f(a, b, n); }
    let mut i = 0;
    while i < n {
        let (x, y) = (a.add(i).read_volatile(), b.add(i).read_volatile());
        if x != y { return x as i32 - y as i32; }
        i += 1;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    memcmp(a, b, n)
}

// ---------------------------------------------------------------- basic blocks

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    while a < b {
        *a = GUARDS.fetch_add(1, Relaxed) + 1;
        a = a.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    TS.with(|t| {
        if !t.on.get() {
            return;
        }
        let s = t.steps.get() + 1;
        t.steps.set(s);
        let g = *g as usize;
        if !SHARED.is_null() {
            (*SHARED).cov[g & (NGUARD - 1)].store(1, Relaxed);
        }
        if s > t.limit.get() {
            hang(HANG_STEPS);
        }
        if t.sim.get() >= 0 {
            crate::thr::point(g as u32);
        }
    })
}

// ---------------------------------------------------------------- memory accesses

static mut STATICS: (usize, usize) = (0, 0);

fn find_statics() {
    extern "C" {
        static __data_start: u8;
        static _end: u8;
    }
    unsafe {
        let a = &raw const __data_start as usize;
        STATICS = (a, &raw const _end as usize - a);
    }
}

/// A place where threads can see one another: an atomic operation, or an access to a
/// static the library can write.
#[inline(never)]
fn shared_point(n: u32) {
    TS.with(|t| if t.on.get() && t.sim.get() >= 0 { crate::thr::hot(n) });
}

macro_rules! access {
    ($($f:ident)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $f(p: usize) {
            if p.wrapping_sub(STATICS.0) < STATICS.1 { shared_point(1); }
        }
    )* };
}
access! {
    __tsan_read1 __tsan_read2 __tsan_read4 __tsan_read8 __tsan_read16
    __tsan_write1 __tsan_write2 __tsan_write4 __tsan_write8 __tsan_write16
    __tsan_unaligned_read2 __tsan_unaligned_read4 __tsan_unaligned_read8 __tsan_unaligned_read16
    __tsan_unaligned_write2 __tsan_unaligned_write4 __tsan_unaligned_write8 __tsan_unaligned_write16
    __tsan_read_write1 __tsan_read_write2 __tsan_read_write4 __tsan_read_write8 __tsan_read_write16
    __tsan_unaligned_read_write2 __tsan_unaligned_read_write4 __tsan_unaligned_read_write8 __tsan_unaligned_read_write16
    __tsan_volatile_read1 __tsan_volatile_read2 __tsan_volatile_read4 __tsan_volatile_read8 __tsan_volatile_read16
    __tsan_volatile_write1 __tsan_volatile_write2 __tsan_volatile_write4 __tsan_volatile_write8 __tsan_volatile_write16
    __tsan_vptr_read
}

macro_rules! nothing {
    ($($f:ident)*) => { $( #[no_mangle] pub extern "C" fn $f(_: usize) {} )* };
}
nothing! { __tsan_func_entry __tsan_func_exit __tsan_init __tsan_ignore_thread_begin __tsan_ignore_thread_end __tsan_atomic_signal_fence }

#[no_mangle]
pub extern "C" fn __tsan_vptr_update(_: usize, _: usize) {}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_: i32) { std::sync::atomic::fence(SeqCst); shared_point(2); }
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 { __tsan_read1(s as usize); __tsan_read1(d as usize); memcpy(d, s, n) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 { __tsan_read1(s as usize); __tsan_read1(d as usize); memmove(d, s, n) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, v: i32, n: usize) -> *mut u8 { __tsan_read1(d as usize); memset(d, v, n) }

macro_rules! atomics {
    ($($t:ty, $at:ty, $load:ident $store:ident $swap:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident;)*) => { $(
        #[no_mangle] pub unsafe extern "C" fn $load(p: *const $at, _: i32) -> $t { shared_point(3); (*p).load(SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $store(p: *const $at, v: $t, _: i32) { shared_point(4); (*p).store(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $swap(p: *const $at, v: $t, _: i32) -> $t { shared_point(5); (*p).swap(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $add(p: *const $at, v: $t, _: i32) -> $t { shared_point(6); (*p).fetch_add(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $sub(p: *const $at, v: $t, _: i32) -> $t { shared_point(7); (*p).fetch_sub(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $and(p: *const $at, v: $t, _: i32) -> $t { shared_point(8); (*p).fetch_and(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $or(p: *const $at, v: $t, _: i32) -> $t { shared_point(9); (*p).fetch_or(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xor(p: *const $at, v: $t, _: i32) -> $t { shared_point(10); (*p).fetch_xor(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $nand(p: *const $at, v: $t, _: i32) -> $t { shared_point(11); (*p).fetch_nand(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $cas(p: *const $at, c: $t, v: $t, _: i32, _: i32) -> $t {
            shared_point(12);
            match (*p).compare_exchange(c, v, SeqCst, SeqCst) { Ok(x) | Err(x) => x }
        }
    )* };
}
use std::sync::atomic::{AtomicU16, AtomicU8};
atomics! {
    u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val;
    u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val;
    u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val;
    u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val;
}

pub fn hang(kind: u64) -> ! {
    unsafe {
        if !SHARED.is_null() {
            (*SHARED).hang.store(kind, SeqCst);
            (*SHARED).hang_steps.store(TS.with(|t| t.steps.get()), SeqCst);
        }
    }
    exit_now(HANG_EXIT)
}

// ---------------------------------------------------------------- allocator

pub struct A;

#[inline]
fn gate(n: usize) -> bool {
    TS.with(|t| {
        if !t.on.get() {
            return true;
        }
        t.allocs.set(t.allocs.get() + 1);
        t.bytes.set(t.bytes.get() + n as u64);
        if t.bytes.get() > RUNAWAY {
            hang(HANG_MEMORY);
        }
        if t.sim.get() >= 0 {
            crate::thr::point(u32::MAX - 2);
        }
        let f = t.fail.get();
        if f < 0 {
            return true;
        }
        if f == 0 {
            t.fired.set(t.fired.get() + 1);
            if !t.fail_forever.get() {
                t.fail.set(-1);
            }
            return false;
        }
        t.fail.set(f - 1);
        true
    })
}

unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !gate(l.size()) {
            return std::ptr::null_mut();
        }
        LIVE.fetch_add(l.size() as i64, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !gate(l.size()) {
            return std::ptr::null_mut();
        }
        LIVE.fetch_add(l.size() as i64, Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !gate(n) {
            return std::ptr::null_mut();
        }
        LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static GLOBAL: A = A;

struct Oom;

fn oom_hook(_: Layout) {
    let on = TS.with(|t| {
        t.fail.set(-1);
        t.on.get()
    });
    if on {
        resume_unwind(Box::new(Oom));
    }
}

pub fn init() {
    find_mem();
    find_statics();
    std::alloc::set_alloc_error_hook(oom_hook);
    std::panic::set_hook(Box::new(|info| {
        let inside = TS.with(|t| t.on.replace(false));
        if !inside {
            let at = info.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
            if let Ok(mut p) = PLACE.lock() {
                *p = (at, info.to_string());
            }
        }
        TS.with(|t| t.on.set(inside));
    }));
}
/// Where the last panic outside a metered call came from.
pub static PLACE: std::sync::Mutex<(String, String)> = std::sync::Mutex::new((String::new(), String::new()));

pub fn live() -> i64 {
    LIVE.load(Relaxed)
}

// ---------------------------------------------------------------- calls into the library

#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    Panic(String),
    Oom,
    /// a deliberate cancellation thrown by the harness from inside a callback
    Cancel,
}

pub struct Cancel;

#[derive(Clone, Copy, Debug, Default)]
pub struct Meter {
    pub steps: u64,
    pub allocs: u64,
    pub bytes: u64,
    pub moved: u64,
    pub fired: u64,
    pub rnd: u64,
    pub clk: u64,
}

#[derive(Clone, Copy)]
pub struct Opt {
    pub limit: u64,
    pub fail: i64,
    pub forever: bool,
}

impl Default for Opt {
    fn default() -> Opt {
        Opt { limit: 400_000_000, fail: -1, forever: false }
    }
}

/// Run `f`, which calls the library, with the seams engaged.
pub fn call<T>(o: Opt, f: impl FnOnce() -> T) -> (Result<T, Stop>, Meter) {
    TS.with(|t| {
        t.steps.set(0);
        t.limit.set(o.limit);
        t.allocs.set(0);
        t.bytes.set(0);
        t.moved.set(0);
        t.fired.set(0);
        t.rnd_calls.set(0);
        t.clk_calls.set(0);
        t.fail_forever.set(o.forever);
        t.fail.set(o.fail);
        t.on.set(true);
    });
    let r = catch_unwind(AssertUnwindSafe(f));
    let m = TS.with(|t| {
        t.on.set(false);
        t.fail.set(-1);
        Meter {
            steps: t.steps.get(), allocs: t.allocs.get(), bytes: t.bytes.get(), moved: t.moved.get(),
            fired: t.fired.get(), rnd: t.rnd_calls.get(), clk: t.clk_calls.get(),
        }
    });
    (r.map_err(stop), m)
}

fn stop(e: Box<dyn Any + Send>) -> Stop {
    if e.is::<Oom>() {
        return Stop::Oom;
    }
    if e.is::<Cancel>() {
        return Stop::Cancel;
    }
    if let Some(s) = e.downcast_ref::<&str>() {
        return Stop::Panic(s.to_string());
    }
    if let Some(s) = e.downcast_ref::<String>() {
        return Stop::Panic(s.clone());
    }
    Stop::Panic("?".into())
}

/// Leave the library for a callback of the harness (a sink, an input wrapper).
pub fn outside<T>(f: impl FnOnce() -> T) -> T {
    let was = TS.with(|t| t.on.replace(false));
    let r = f();
    TS.with(|t| t.on.set(was));
    r
}

/// Let library code (a `Display` or `Debug`) run on behalf of the harness: a panic in
/// here is the library's.
pub fn reading<T>(f: impl FnOnce() -> T) -> T {
    TS.with(|t| t.reading.set(true));
    let r = f();
    TS.with(|t| t.reading.set(false));
    r
}
