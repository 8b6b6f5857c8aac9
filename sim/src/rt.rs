//! The simulator's runtime: the seams through which it owns scheduling, memory, entropy, time and
//! blocking of the code under test.
//!
//! * scheduling: SanitizerCoverage calls `__sanitizer_cov_trace_pc_guard` at every basic block of
//!   the library; the seeded schedule decides at which block a client thread is suspended;
//! * allocation: the global allocator fails exactly the allocations the case names;
//! * entropy, clocks, futexes, sleeping: the libc entry points are interposed.
//!
//! All of it is active only while `in_lib` is set, i.e. while library code runs for the case.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicU64, Ordering::SeqCst};

use crate::case::{Case, Item, RESUME};
use crate::rng::{mix, splitmix};

pub const MAXC: usize = 8;
pub const NF: usize = 16;
pub const FAULTS: [&str; NF] = [
    "preemption", "alloc_failure", "memory_exhaustion", "entropy_eintr", "entropy_short_read",
    "entropy_enosys", "entropy_hard_error", "entropy_stuck", "blocked_switch", "clock_reads",
    "op_panicked", "resume", "", "", "", "",
];
pub const NPROBE: usize = 64;
pub const COVMAX: usize = 1 << 17;

#[repr(C)]
pub struct Shm {
    pub status: u32, // 0 running, 1 ok, 2 violation, 3 harness error
    pub msg_len: u32,
    pub msg: [u8; 16384],
    pub loghash: u64,
    pub ilhash: u64,
    pub steps: u64,
    pub switches: u64,
    pub ops: u64,
    pub nontrivial: u64,
    pub faults: [u64; NF],
    pub probes: [u64; NPROBE],
    pub out_len: u64,
    pub out: [u64; 8192],
}

pub static SHM: AtomicPtr<Shm> = AtomicPtr::new(std::ptr::null_mut());
pub static COV: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
pub static NGUARDS: AtomicU32 = AtomicU32::new(0);

pub fn shm() -> &'static mut Shm {
    unsafe { &mut *SHM.load(SeqCst) }
}

// ---------------------------------------------------------------- libc
extern "C" {
    pub fn fork() -> i32;
    pub fn _exit(c: i32) -> !;
    pub fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    pub fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    pub fn alarm(s: u32) -> u32;
    pub fn kill(p: i32, s: i32) -> i32;
    pub fn personality(p: u64) -> i32;
    pub fn sched_setaffinity(p: i32, n: usize, m: *const u64) -> i32;
    pub fn sched_getaffinity(p: i32, n: usize, m: *mut u64) -> i32;
    pub fn setrlimit(r: i32, v: *const [u64; 2]) -> i32;
    pub fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn __errno_location() -> *mut i32;
}
#[inline]
pub unsafe fn raw(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    core::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b,
        in("rdx") c, in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    r
}
unsafe fn ret(r: isize) -> i64 {
    if r < 0 && r > -4096 {
        *__errno_location() = (-r) as i32;
        -1
    } else {
        r as i64
    }
}
unsafe fn fail(errno: i32) -> i64 {
    *__errno_location() = errno;
    -1
}
pub fn shared<T>() -> *mut T {
    unsafe {
        let p = mmap(std::ptr::null_mut(), std::mem::size_of::<T>(), 3, 0x21, -1, 0);
        assert!(p as isize != -1, "mmap");
        p as *mut T
    }
}
pub fn shared_bytes(n: usize) -> *mut u8 {
    unsafe {
        let p = mmap(std::ptr::null_mut(), n, 3, 0x4021, -1, 0);
        assert!(p as isize != -1, "mmap");
        p
    }
}
pub fn now_real() -> f64 {
    let mut ts = [0i64; 2];
    unsafe { raw(228, 1, ts.as_mut_ptr() as usize, 0, 0, 0, 0) };
    ts[0] as f64 + ts[1] as f64 * 1e-9
}

// ---------------------------------------------------------------- per-thread control block
pub struct Ctl {
    pub in_lib: Cell<bool>,
    pub steps: Cell<u64>,
    pub stop_at: Cell<u64>,
    pub preempt_at: Cell<u64>,
    pub budget: Cell<u64>,
    pub client: Cell<usize>,
    pub pre_idx: Cell<usize>,
    pub item: Cell<*const Item>,
    pub allocs: Cell<u64>,
    pub fail_at: Cell<u64>,
    pub exhaust: Cell<bool>,
    pub fired: Cell<bool>,
    pub bytes: Cell<u64>,
    pub worker: Cell<bool>,
}
thread_local! {
    pub static CTL: Ctl = const { Ctl {
        in_lib: Cell::new(false), steps: Cell::new(0), stop_at: Cell::new(u64::MAX),
        preempt_at: Cell::new(u64::MAX), budget: Cell::new(u64::MAX), client: Cell::new(0),
        pre_idx: Cell::new(0), item: Cell::new(std::ptr::null()), allocs: Cell::new(0),
        fail_at: Cell::new(0), exhaust: Cell::new(false), fired: Cell::new(false),
        bytes: Cell::new(0), worker: Cell::new(false),
    } };
}
fn ctl<R>(f: impl FnOnce(&Ctl) -> R) -> R {
    CTL.with(f)
}

// ---------------------------------------------------------------- allocator seam
pub struct SimAlloc;
pub struct AllocFail;
const MEM_LIMIT: u64 = 1 << 30;

#[inline]
fn deny(size: usize) -> bool {
    CTL.with(|c| {
        if !c.in_lib.get() {
            return false;
        }
        let n = c.allocs.get() + 1;
        c.allocs.set(n);
        let b = c.bytes.get() + size as u64;
        c.bytes.set(b);
        // bytes asked for and bytes copied are work too
        c.steps.set(c.steps.get() + size as u64 / 64);
        if b > MEM_LIMIT {
            c.in_lib.set(false);
            die_violation("memory: one operation allocated more than 1 GiB");
        }
        let k = c.fail_at.get();
        if k != 0 && (n == k || (n > k && c.exhaust.get())) && !std::thread::panicking() {
            if !c.fired.get() {
                c.fired.set(true);
                shm().faults[if c.exhaust.get() { 2 } else { 1 }] += 1;
            }
            return true;
        }
        false
    })
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if deny(l.size()) { std::ptr::null_mut() } else { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if deny(l.size()) { std::ptr::null_mut() } else { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if deny(n) { std::ptr::null_mut() } else { System.realloc(p, l, n) }
    }
}
pub fn alloc_error(_: Layout) {
    ctl(|c| c.in_lib.set(false));
    std::panic::resume_unwind(Box::new(AllocFail));
}

// ---------------------------------------------------------------- copied bytes (linked with --wrap)
extern "C" {
    fn __real_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
    fn __real_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
}
#[inline]
fn moved(n: usize) {
    if n >= 64 {
        CTL.with(|c| {
            if c.in_lib.get() {
                c.steps.set(c.steps.get() + n as u64 / 64);
            }
        })
    }
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    moved(n);
    __real_memcpy(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    moved(n);
    __real_memmove(d, s, n)
}

// ---------------------------------------------------------------- coverage / pre-emption seam
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        let n = NGUARDS.fetch_add(1, SeqCst) + 1;
        *p = n.min(COVMAX as u32 - 1);
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    CTL.with(|c| {
        if !c.in_lib.get() {
            return;
        }
        *COV.load(std::sync::atomic::Ordering::Relaxed).add(*g as usize) = 1;
        let s = c.steps.get() + 1;
        c.steps.set(s);
        if s >= c.stop_at.get() {
            slow(c, *g);
        }
    })
}
fn slow(c: &Ctl, g: u32) {
    if c.steps.get() >= c.preempt_at.get() {
        c.in_lib.set(false);
        suspend(c, g);
        arm_next(c);
        c.in_lib.set(true);
    }
    if c.steps.get() >= c.budget.get() {
        c.in_lib.set(false);
        // a client may be waiting for a suspended one: let those finish first
        if run().threads.load(SeqCst) && run().others_suspended(c.client.get()) {
            block(c);
            c.budget.set(c.steps.get() + step_budget());
            c.stop_at.set(c.preempt_at.get().min(c.budget.get()));
            c.in_lib.set(true);
            return;
        }
        die_violation(&format!(
            "no-progress: an operation executed {} basic blocks without finishing",
            c.steps.get()
        ));
    }
}
fn arm_next(c: &Ctl) {
    let it = unsafe { &*c.item.get() };
    let k = c.pre_idx.get();
    let at = if run().drain.load(SeqCst) == 0 && k < it.pre.len() {
        c.pre_idx.set(k + 1);
        c.steps.get() + it.pre[k].max(1)
    } else {
        u64::MAX
    };
    c.preempt_at.set(at);
    c.stop_at.set(at.min(c.budget.get()));
}
pub const STEP_BUDGET: u64 = 4_000_000;
/// further steps an operation may take for every coordinate of the crowds of its run
const WIDE_STEPS: u64 = 3000;
fn step_budget() -> u64 {
    STEP_BUDGET + run().wide.load(SeqCst) * WIDE_STEPS
}

// ---------------------------------------------------------------- threads handed a baton
pub const IDLE: u32 = 0;
pub const SUSPENDED: u32 = 1;
pub const BLOCKED: u32 = 2;

pub struct Slot {
    pub word: AtomicU32,
    pub status: AtomicU32,
    pub job: AtomicPtr<Item>,
}
pub struct Run {
    pub threads: std::sync::atomic::AtomicBool,
    pub slots: [Slot; MAXC],
    pub main: AtomicU32,
    /// set while the schedule is being drained: no further pre-emptions
    pub drain: AtomicU32,
    pub ent: AtomicU64,
    pub ent_mode: AtomicU64,
    pub ent_calls: AtomicU64,
    pub clock: AtomicU64,
    pub wide: AtomicU64,
    pub stop: std::sync::Mutex<Option<Stop>>,
}
pub enum Stop {
    Viol(String),
    Oom,
}
impl Run {
    fn others_suspended(&self, me: usize) -> bool {
        (0..MAXC).any(|i| i != me && self.slots[i].status.load(SeqCst) != IDLE)
    }
}
static RUN: Run = Run {
    threads: std::sync::atomic::AtomicBool::new(false),
    slots: [const { Slot { word: AtomicU32::new(0), status: AtomicU32::new(IDLE), job: AtomicPtr::new(std::ptr::null_mut()) } }; MAXC],
    main: AtomicU32::new(0),
    drain: AtomicU32::new(0),
    ent: AtomicU64::new(0),
    ent_mode: AtomicU64::new(0),
    ent_calls: AtomicU64::new(0),
    clock: AtomicU64::new(0),
    wide: AtomicU64::new(0),
    stop: std::sync::Mutex::new(None),
};
fn run() -> &'static Run {
    &RUN
}
fn fwait(w: &AtomicU32) {
    while w.load(SeqCst) == 0 {
        unsafe { raw(202, w as *const _ as usize, 128, 0, 0, 0, 0) };
    }
    w.store(0, SeqCst);
}
fn fwake(w: &AtomicU32) {
    w.store(1, SeqCst);
    unsafe { raw(202, w as *const _ as usize, 129, 1, 0, 0, 0) };
}
fn suspend(c: &Ctl, g: u32) {
    let r = run();
    let s = shm();
    let i = c.client.get();
    s.faults[0] += 1;
    s.ilhash = mix(s.ilhash, ((i as u64) << 32) | g as u64);
    r.slots[i].status.store(SUSPENDED, SeqCst);
    fwake(&r.main);
    fwait(&r.slots[i].word);
}
/// The library would block here (or is spinning): let the others run.
fn block(c: &Ctl) {
    let r = run();
    let i = c.client.get();
    if !r.threads.load(SeqCst) || !c.worker.get() || !r.others_suspended(i) {
        die_violation("deadlock: an operation waits and no other client can ever wake it");
    }
    shm().faults[8] += 1;
    r.slots[i].status.store(BLOCKED, SeqCst);
    fwake(&r.main);
    fwait(&r.slots[i].word);
}

pub fn die_violation(msg: &str) -> ! {
    ctl(|c| c.in_lib.set(false));
    finish_status(2, msg);
    unsafe { _exit(0) }
}
/// is it a panic of the code under test, not of the harness?
fn in_library(m: &str) -> bool {
    !["src/case.rs", "src/worlds/", "src/rt.rs", "src/run.rs", "src/rng.rs", "src/oracle"].iter().any(|f| m.contains(f))
}
/// a panic outside of an operation: the library's, when the harness looked at a result, or the harness's own
pub fn end_panic(m: &str) {
    if in_library(m) {
        finish_status(2, &format!("panic: looking at a result panicked: {m}"))
    } else {
        finish_status(3, &format!("harness panic: {m}"))
    }
}
pub fn finish_status(st: u32, msg: &str) {
    let s = shm();
    let b = msg.as_bytes();
    let n = b.len().min(s.msg.len());
    s.msg[..n].copy_from_slice(&b[..n]);
    s.msg_len = n as u32;
    s.status = st;
}

// ---------------------------------------------------------------- libc seams
fn in_lib() -> bool {
    CTL.try_with(|c| c.in_lib.get()).unwrap_or(false)
}
fn off<R>(f: impl FnOnce(&Ctl) -> R) -> R {
    CTL.with(|c| {
        let o = c.in_lib.replace(false);
        let r = f(c);
        c.in_lib.set(o);
        r
    })
}
unsafe fn entropy(buf: *mut u8, n: usize) -> i64 {
    off(|_| {
        let r = run();
        let s = shm();
        let k = r.ent_calls.fetch_add(1, SeqCst);
        let mode = r.ent_mode.load(SeqCst);
        let mut n = n;
        match mode {
            4 | 7 if k % 3 != 2 => {
                s.faults[3] += 1;
                return fail(4);
            }
            6 => {
                s.faults[5] += 1;
                return fail(38);
            }
            8 => {
                s.faults[6] += 1;
                return fail(5);
            }
            5 | 7 => {
                s.faults[4] += 1;
                n = n.min(1 + (k % 7) as usize)
            }
            1 | 2 | 3 | 9 => s.faults[7] += 1,
            _ => {}
        }
        fill(buf, n, mode, k);
        n as i64
    })
}
unsafe fn fill(buf: *mut u8, n: usize, mode: u64, k: u64) {
    let mut st = run().ent.load(SeqCst);
    for i in 0..n {
        *buf.add(i) = match mode {
            1 => 0,
            2 => 0xff,
            3 => (st >> (8 * (i % 8))) as u8,
            9 => (k + (i == 0) as u64) as u8,
            _ => {
                if i % 8 == 0 {
                    splitmix(&mut st);
                }
                let mut t = st;
                (splitmix(&mut t) >> (8 * (i % 8))) as u8
            }
        };
    }
    if mode != 3 {
        run().ent.store(st.wrapping_add(0x1234567), SeqCst);
    }
}
#[no_mangle]
unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, fl: u32) -> isize {
    if in_lib() {
        return if n == 0 { 0 } else { entropy(buf, n) as isize };
    }
    ret(raw(318, buf as usize, n, fl as usize, 0, 0, 0)) as isize
}
#[no_mangle]
unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if in_lib() {
        match n {
            318 => return if b == 0 { if run().ent_mode.load(SeqCst) == 6 { shm().faults[5] += 1; fail(38) } else { 0 } } else { entropy(a as *mut u8, b) },
            202 => {
                let op = b & 0x7f;
                if op == 0 || op == 9 {
                    let cur = &*(a as *const AtomicU32);
                    if cur.load(SeqCst) != c as u32 {
                        return fail(11);
                    }
                    if d != 0 {
                        // timed wait: simulated time passes
                        run().clock.fetch_add(1_000_000, SeqCst);
                        return fail(110);
                    }
                    off(|k| block(k));
                    return 0;
                }
            }
            _ => {}
        }
    }
    ret(raw(n as usize, a, b, c, d, e, f))
}
#[no_mangle]
unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32 {
    if in_lib() {
        return off(|_| {
            let t = run().clock.fetch_add(1_000 + (run().ent.load(SeqCst) & 0xffff), SeqCst);
            shm().faults[9] += 1;
            (*ts)[0] = (t / 1_000_000_000) as i64;
            (*ts)[1] = (t % 1_000_000_000) as i64;
            0
        });
    }
    ret(raw(228, clk as usize, ts as usize, 0, 0, 0, 0)) as i32
}
unsafe fn sim_sleep(ts: *const [i64; 2]) {
    let ns = ((*ts)[0] as u64).saturating_mul(1_000_000_000).saturating_add((*ts)[1] as u64);
    run().clock.fetch_add(ns, SeqCst);
    off(|c| {
        if run().threads.load(SeqCst) && c.worker.get() && run().others_suspended(c.client.get()) {
            block(c)
        }
    });
}
#[no_mangle]
unsafe extern "C" fn nanosleep(ts: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if in_lib() {
        sim_sleep(ts);
        return 0;
    }
    ret(raw(35, ts as usize, rem as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
unsafe extern "C" fn clock_nanosleep(clk: i32, fl: i32, ts: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if in_lib() {
        sim_sleep(ts);
        return 0;
    }
    -raw(230, clk as usize, fl as usize, ts as usize, rem as usize, 0, 0) as i32
}
#[no_mangle]
unsafe extern "C" fn sched_yield() -> i32 {
    if in_lib() {
        off(|c| {
            if run().threads.load(SeqCst) && c.worker.get() && run().others_suspended(c.client.get()) {
                block(c)
            }
        });
        return 0;
    }
    ret(raw(24, 0, 0, 0, 0, 0, 0)) as i32
}
const FAKE_FD: i32 = 0x3fff_fff0;
unsafe fn is_random_dev(p: *const u8) -> bool {
    let s = std::ffi::CStr::from_ptr(p as *const _).to_bytes();
    s == b"/dev/urandom" || s == b"/dev/random"
}
#[no_mangle]
unsafe extern "C" fn open(p: *const u8, fl: i32, m: u32) -> i32 {
    if in_lib() && is_random_dev(p) {
        return FAKE_FD;
    }
    ret(raw(2, p as usize, fl as usize, m as usize, 0, 0, 0)) as i32
}
#[no_mangle]
unsafe extern "C" fn open64(p: *const u8, fl: i32, m: u32) -> i32 {
    open(p, fl, m)
}
#[no_mangle]
unsafe extern "C" fn read(fd: i32, b: *mut u8, n: usize) -> isize {
    if fd == FAKE_FD {
        off(|_| fill(b, n, 0, 0));
        return n as isize;
    }
    ret(raw(0, fd as usize, b as usize, n, 0, 0, 0)) as isize
}
#[no_mangle]
unsafe extern "C" fn poll(f: *mut u8, n: u64, t: i32) -> i32 {
    if in_lib() && n == 1 && *(f as *const i32) == FAKE_FD {
        *(f.add(6) as *mut i16) = 1;
        return 1;
    }
    ret(raw(7, f as usize, n as usize, t as usize, 0, 0, 0)) as i32
}
#[no_mangle]
unsafe extern "C" fn close(fd: i32) -> i32 {
    if fd == FAKE_FD {
        return 0;
    }
    ret(raw(3, fd as usize, 0, 0, 0, 0, 0)) as i32
}

// ---------------------------------------------------------------- worlds
/// How a library call can end other than by returning.
pub enum Fault {
    Oom,
    Panic(String),
}
pub struct Cx {
    pub client: usize,
}
pub type Res = Result<(), Stop>;

thread_local! {
    static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        // no further faults or pre-emption in this call: it is unwinding
        ctl(|c| c.in_lib.set(false));
        {
            let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".into()
            };
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            PANIC_MSG.with(|p| *p.borrow_mut() = format!("{m} at {loc}"));
        }
    }));
    std::alloc::set_alloc_error_hook(alloc_error);
}
pub fn last_panic() -> String {
    PANIC_MSG.with(|p| p.borrow().clone())
}

impl Cx {
    /// Run library code: faults, pre-emption and step counting are live only inside.
    pub fn lib<T>(&self, f: impl FnOnce() -> T) -> Result<T, Fault> {
        ctl(|c| c.in_lib.set(true));
        let r = catch_unwind(AssertUnwindSafe(f));
        ctl(|c| c.in_lib.set(false));
        match r {
            Ok(v) => Ok(v),
            Err(p) => {
                if p.downcast_ref::<AllocFail>().is_some() {
                    std::mem::forget(p);
                    Err(Fault::Oom)
                } else {
                    let m = last_panic();
                    if !in_library(&m) {
                        finish_status(3, &format!("harness panic: {m}"));
                        unsafe { _exit(0) }
                    }
                    shm().faults[10] += 1;
                    Err(Fault::Panic(m))
                }
            }
        }
    }
    /// Library call that must not panic.
    pub fn must<T>(&self, what: &str, f: impl FnOnce() -> T) -> Result<T, Stop> {
        match self.lib(f) {
            Ok(v) => Ok(v),
            Err(Fault::Oom) => Err(Stop::Oom),
            Err(Fault::Panic(m)) => Err(Stop::Viol(format!("panic: {what} panicked: {m}"))),
        }
    }
    /// The rest of this operation (checks, observations) runs without faults.
    pub fn calm(&self) {
        ctl(|c| {
            c.fail_at.set(0);
            c.preempt_at.set(u64::MAX);
            c.stop_at.set(c.budget.get());
        })
    }
    pub fn oom_fired(&self) -> bool {
        ctl(|c| c.fired.get())
    }
    pub fn allocs(&self) -> u64 {
        ctl(|c| c.allocs.get())
    }
    pub fn set_fail(&self, k: u64, exhaust: bool) {
        ctl(|c| {
            c.fail_at.set(if k == 0 { 0 } else { c.allocs.get() + k });
            c.exhaust.set(exhaust);
            c.fired.set(false);
        })
    }
    pub fn steps(&self) -> u64 {
        ctl(|c| c.steps.get())
    }
    /// how many coordinates the largest crowd of this run has
    pub fn wide(&self) -> u64 {
        run().wide.load(SeqCst)
    }
    /// Let this operation take `n` more steps before it counts as endless.
    pub fn allow(&self, n: u64) {
        ctl(|c| {
            c.budget.set(c.steps.get() + n);
            c.stop_at.set(c.preempt_at.get().min(c.budget.get()));
        })
    }
    pub fn log(&self, v: u64) {
        let s = shm();
        s.loghash = mix(s.loghash, v);
    }
    pub fn logf(&self, v: f64) {
        self.log(if v.is_nan() { 0x7ff8_0000_0000_0000 } else { v.to_bits() })
    }
    pub fn probe(&self, i: usize) {
        shm().probes[i] += 1;
    }
    pub fn nontrivial(&self) {
        shm().nontrivial = 1;
    }
    pub fn out(&self, v: &[u64]) {
        let s = shm();
        let n = v.len().min(s.out.len());
        s.out[..n].copy_from_slice(&v[..n]);
        s.out_len = n as u64;
    }
    pub fn set_entropy(&self, seed: u64, mode: u64) {
        run().ent.store(seed, SeqCst);
        run().ent_mode.store(mode, SeqCst);
        run().ent_calls.store(0, SeqCst);
    }
    pub fn jump_clock(&self, ns: u64) {
        run().clock.store(ns, SeqCst);
    }
}

#[macro_export]
macro_rules! viol {
    ($($a:tt)*) => { return Err($crate::rt::Stop::Viol(format!($($a)*))) };
}
#[macro_export]
macro_rules! check {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::rt::Stop::Viol(format!($($a)*))) } };
}

pub trait World: Sync {
    /// Execute one operation of `cx.client` (which runs on that client's own thread).
    fn exec(&self, cx: &Cx, it: &Item) -> Res;
    /// Final invariants, with every operation finished and no faults.
    fn finish(&self, _cx: &Cx) -> Res {
        Ok(())
    }
}

fn exec_one(w: &dyn World, client: usize, it: &Item) {
    ctl(|c| {
        c.client.set(client);
        c.item.set(it);
        c.steps.set(0);
        c.allocs.set(0);
        c.bytes.set(0);
        c.fail_at.set(it.oom);
        c.exhaust.set(it.exhaust);
        c.fired.set(false);
        c.pre_idx.set(0);
        c.budget.set(step_budget());
        if run().threads.load(SeqCst) && c.worker.get() {
            arm_next(c);
        } else {
            c.preempt_at.set(u64::MAX);
            c.stop_at.set(step_budget());
        }
    });
    let cx = Cx { client };
    let s = shm();
    s.ops += 1;
    s.ilhash = mix(s.ilhash, ((client as u64) << 48) | it.op as u64);
    let wide = it.widen();
    let r = catch_unwind(AssertUnwindSafe(|| w.exec(&cx, wide.as_ref().unwrap_or(it))));
    ctl(|c| {
        c.in_lib.set(false);
        shm().steps += c.steps.get();
    });
    match r {
        Ok(Ok(())) | Ok(Err(Stop::Oom)) => {}
        Ok(Err(e)) => *run().stop.lock().unwrap() = Some(e),
        Err(_) => {
            end_panic(&last_panic());
            unsafe { _exit(0) }
        }
    }
}

fn switch_to(i: usize) {
    let r = run();
    shm().switches += 1;
    fwake(&r.slots[i].word);
    fwait(&r.main);
}
fn failed() -> bool {
    run().stop.lock().unwrap().is_some()
}
/// Let a suspended or blocked client finish its operation.
fn complete(i: usize, depth: usize) {
    let r = run();
    let mut rounds = 0;
    r.drain.fetch_add(1, SeqCst);
    while r.slots[i].status.load(SeqCst) != IDLE && !failed() {
        let st = r.slots[i].status.load(SeqCst);
        if st == BLOCKED {
            rounds += 1;
            if rounds > 200 || depth > MAXC {
                die_violation("deadlock: clients wait for each other and none can go on");
            }
            for j in 0..MAXC {
                if j != i && r.slots[j].status.load(SeqCst) == SUSPENDED {
                    complete(j, depth + 1);
                }
            }
        }
        shm().faults[11] += 1;
        switch_to(i);
    }
    r.drain.fetch_sub(1, SeqCst);
}

/// Runs the case in this (freshly forked) process; the outcome is left in shared memory.
pub fn run_child(case: &Case, w: Box<dyn World>, clients: usize) {
    let r = run();
    r.wide.store(case.items.iter().map(|i| i.width()).max().unwrap_or(0), SeqCst);
    r.ent.store(case.entropy, SeqCst);
    r.ent_mode.store(case.entropy_mode, SeqCst);
    r.clock.store(case.clock, SeqCst);
    let threads = case.threads && clients > 1;
    r.threads.store(threads, SeqCst);
    let w: &'static dyn World = Box::leak(w);
    if threads {
        for i in 0..clients {
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || {
                    let r = run();
                    ctl(|c| {
                        c.client.set(i);
                        c.worker.set(true)
                    });
                    loop {
                        fwait(&r.slots[i].word);
                        let it = unsafe { &*r.slots[i].job.load(SeqCst) };
                        exec_one(w, i, it);
                        r.slots[i].status.store(IDLE, SeqCst);
                        fwake(&r.main);
                    }
                })
                .expect("spawn");
        }
    }
    for it in &case.items {
        let i = it.client % clients;
        if it.op == RESUME {
            if threads && r.slots[i].status.load(SeqCst) != IDLE {
                shm().faults[11] += 1;
                switch_to(i);
            }
        } else if threads {
            if r.slots[i].status.load(SeqCst) != IDLE {
                complete(i, 0);
            }
            if failed() {
                break;
            }
            r.slots[i].job.store(it as *const Item as *mut Item, SeqCst);
            switch_to(i);
        } else {
            exec_one(w, i, it);
        }
        if failed() {
            break;
        }
    }
    if threads && !failed() {
        for i in 0..clients {
            if r.slots[i].status.load(SeqCst) != IDLE {
                complete(i, 0);
            }
        }
    }
    if !failed() {
        let cx = Cx { client: 0 };
        ctl(|c| {
            c.fail_at.set(0);
            c.steps.set(0);
            c.allocs.set(0);
            c.bytes.set(0);
            c.preempt_at.set(u64::MAX);
            c.budget.set(step_budget() * 8);
            c.stop_at.set(step_budget() * 8);
            c.worker.set(false);
        });
        r.threads.store(false, SeqCst);
        let x = catch_unwind(AssertUnwindSafe(|| w.finish(&cx)));
        ctl(|c| c.in_lib.set(false));
        match x {
            Ok(Ok(())) | Ok(Err(Stop::Oom)) => {}
            Ok(Err(e)) => *r.stop.lock().unwrap() = Some(e),
            Err(_) => {
                end_panic(&last_panic());
                return;
            }
        }
    }
    let st = r.stop.lock().unwrap().take();
    match st {
        Some(Stop::Viol(m)) => finish_status(2, &m),
        _ => finish_status(1, ""),
    }
}
