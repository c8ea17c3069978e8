//! Owns the nondeterminism of the process: file system calls, hash seeds, memory allocation and
//! futex waits of the code under test all pass through here (by symbol interposition and a global
//! allocator), so that the explorers can inject faults and decide thread interleavings.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicI64, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

type CInt = i32;
type CLong = i64;

extern "C" {
    fn __errno_location() -> *mut CInt;
    fn dup(fd: CInt) -> CInt;
    fn dup2(a: CInt, b: CInt) -> CInt;
    fn memfd_create(name: *const u8, flags: u32) -> CInt;
    fn ftruncate(fd: CInt, len: i64) -> CInt;
}

pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EACCES: i32 = 13;
pub const EMFILE: i32 = 24;
pub const ENOSPC: i32 = 28;

#[inline(always)]
unsafe fn raw(n: CLong, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> CLong {
    let r: CLong;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn ret(r: CLong) -> CLong {
    if r < 0 {
        *__errno_location() = (-r) as CInt;
        -1
    } else {
        r
    }
}

// ---------------------------------------------------------------- hash seeds
pub static SEED: AtomicU64 = AtomicU64::new(0x9e3779b97f4a7c15);
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut s = SEED.load(Relaxed);
    for i in 0..len {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        *buf.add(i) = (s >> 24) as u8;
    }
    // which of two callers asks first must not change what either gets
    if MODE.load(Relaxed) != 3 {
        SEED.store(s | 1, Relaxed);
    }
    len as isize
}

// ---------------------------------------------------------------- tracked files and faults
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    Open,
    Read,
    Seek,
    Write,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Fault {
    Errno(i32),
    /// transfer only this many bytes (at least 1)
    Short(usize),
    /// transfer half of what was asked
    Half,
    /// transfer one byte less than asked
    AllButOne,
    /// report 0 bytes
    Zero,
}

const MAXFD: usize = 1024;
#[allow(clippy::declare_interior_mutable_const)]
const F0: AtomicBool = AtomicBool::new(false);
static TRACKED: [AtomicBool; MAXFD] = [F0; MAXFD];
/// 0 pass through, 1 fault injection, 2 controlled scheduling of pool threads, 3 of two callers
static MODE: AtomicU32 = AtomicU32::new(0);
struct FaultState {
    prefix: Vec<u8>,
    plan: Vec<(usize, Fault)>,
    trace: Vec<(Op, usize)>,
    fired: usize,
}
static FAULTS: Mutex<FaultState> = Mutex::new(FaultState { prefix: Vec::new(), plan: Vec::new(), trace: Vec::new(), fired: 0 });

thread_local! {
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

fn tracked(fd: CInt) -> bool {
    fd >= 0 && (fd as usize) < MAXFD && TRACKED[fd as usize].load(Relaxed)
}

fn fault(op: Op, len: usize) -> Option<Fault> {
    if INSIDE.with(|i| i.replace(true)) {
        return None;
    }
    let mut f = FAULTS.lock().unwrap();
    let i = f.trace.len();
    f.trace.push((op, len));
    let r = f.plan.iter().find(|p| p.0 == i).map(|p| p.1);
    if r.is_some() {
        f.fired += 1;
    }
    drop(f);
    INSIDE.with(|i| i.set(false));
    r
}

/// Runs `f` with the given faults at the given file operations (numbered from 0) on files whose
/// path starts with `prefix`; returns the operations that happened and how many faults fired.
pub fn with_faults<T>(prefix: &str, plan: &[(usize, Fault)], f: impl FnOnce() -> T) -> (T, Vec<(Op, usize)>, usize) {
    {
        INSIDE.with(|i| i.set(true));
        let mut s = FAULTS.lock().unwrap();
        s.prefix = prefix.as_bytes().to_vec();
        s.plan = plan.to_vec();
        s.trace = Vec::with_capacity(256);
        s.fired = 0;
        drop(s);
        INSIDE.with(|i| i.set(false));
    }
    for t in TRACKED.iter() {
        t.store(false, Relaxed);
    }
    MODE.store(1, SeqCst);
    let r = f();
    MODE.store(0, SeqCst);
    let mut s = FAULTS.lock().unwrap();
    let n = s.fired;
    (r, std::mem::take(&mut s.trace), n)
}

unsafe fn cbytes<'a>(p: *const u8) -> &'a [u8] {
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    std::slice::from_raw_parts(p, n)
}

unsafe fn do_open(dirfd: usize, path: *const u8, flags: CInt, mode: u32) -> CInt {
    let m = MODE.load(Relaxed);
    let mut hit = false;
    if m != 0 && !INSIDE.with(|i| i.get()) {
        let p = cbytes(path);
        if m == 1 {
            INSIDE.with(|i| i.set(true));
            hit = p.starts_with(&FAULTS.lock().unwrap().prefix);
            INSIDE.with(|i| i.set(false));
            if hit {
                match fault(Op::Open, 0) {
                    Some(Fault::Errno(e)) => {
                        *__errno_location() = e;
                        return -1;
                    }
                    _ => {}
                }
            }
        } else if m == 2 {
            hit = p.ends_with(b".wad");
            if hit {
                sched_point(1);
            }
        } else {
            call_point();
        }
    }
    if AUDIT.load(Relaxed) && flags & 0x43 != 0 && !INSIDE.with(|i| i.get()) {
        note_written(cbytes(path));
    }
    let r = ret(raw(257, dirfd, path as usize, flags as usize, mode as usize, 0, 0)) as CInt;
    if hit && r >= 0 && (r as usize) < MAXFD {
        TRACKED[r as usize].store(true, Relaxed);
    }
    r
}
const AT_FDCWD: usize = -100isize as usize;
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: CInt, mode: u32) -> CInt {
    do_open(AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const u8, flags: CInt, mode: u32) -> CInt {
    do_open(AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: CInt, path: *const u8, flags: CInt, mode: u32) -> CInt {
    do_open(d as isize as usize, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: CInt, path: *const u8, flags: CInt, mode: u32) -> CInt {
    do_open(d as isize as usize, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: CInt) -> CInt {
    if fd >= 0 && (fd as usize) < MAXFD {
        TRACKED[fd as usize].store(false, Relaxed);
    }
    call_point();
    ret(raw(3, fd as usize, 0, 0, 0, 0, 0)) as CInt
}

/// Ok(n): transfer at most n bytes; Err(r): return r instead
unsafe fn transfer(op: Op, fd: CInt, n: usize) -> Result<usize, isize> {
    let m = MODE.load(Relaxed);
    if m == 3 {
        call_point();
        return Ok(n);
    }
    if m == 0 || !tracked(fd) {
        return Ok(n);
    }
    if m == 2 {
        sched_point(2);
        return Ok(n);
    }
    match fault(op, n) {
        None => Ok(n),
        Some(Fault::Errno(e)) => {
            *__errno_location() = e;
            Err(-1)
        }
        Some(Fault::Short(k)) => Ok(n.min(k.max(1))),
        Some(Fault::Half) => Ok(if n > 1 { n / 2 } else { n }),
        Some(Fault::AllButOne) => Ok(if n > 1 { n - 1 } else { n }),
        Some(Fault::Zero) => Err(0),
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: CInt, buf: *mut u8, n: usize) -> isize {
    match transfer(Op::Read, fd, n) {
        Err(r) => r,
        Ok(n) => ret(raw(0, fd as usize, buf as usize, n, 0, 0, 0)) as isize,
    }
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: CInt, buf: *mut u8, n: usize, off: i64) -> isize {
    match transfer(Op::Read, fd, n) {
        Err(r) => r,
        Ok(n) => ret(raw(17, fd as usize, buf as usize, n, off as usize, 0, 0)) as isize,
    }
}
#[repr(C)]
pub struct IoVec {
    base: *mut u8,
    len: usize,
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: CInt, v: *const IoVec, cnt: CInt) -> isize {
    if MODE.load(Relaxed) != 0 && tracked(fd) && cnt > 0 {
        return read(fd, (*v).base, (*v).len);
    }
    ret(raw(19, fd as usize, v as usize, cnt as usize, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: CInt, v: *const IoVec, cnt: CInt) -> isize {
    if MODE.load(Relaxed) != 0 && tracked(fd) && cnt > 0 {
        return write(fd, (*v).base, (*v).len);
    }
    ret(raw(20, fd as usize, v as usize, cnt as usize, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: CInt, buf: *const u8, n: usize) -> isize {
    match transfer(Op::Write, fd, n) {
        Err(r) => r,
        Ok(n) => ret(raw(1, fd as usize, buf as usize, n, 0, 0, 0)) as isize,
    }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: CInt, buf: *const u8, n: usize, off: i64) -> isize {
    match transfer(Op::Write, fd, n) {
        Err(r) => r,
        Ok(n) => ret(raw(18, fd as usize, buf as usize, n, off as usize, 0, 0)) as isize,
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: CInt, off: i64, whence: CInt) -> i64 {
    call_point();
    if tracked(fd) {
        match MODE.load(Relaxed) {
            1 => {
                if let Some(Fault::Errno(e)) = fault(Op::Seek, 0) {
                    *__errno_location() = e;
                    return -1;
                }
            }
            2 => sched_point(3),
            _ => {}
        }
    }
    ret(raw(8, fd as usize, off as usize, whence as usize, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: CInt, off: i64, whence: CInt) -> i64 {
    lseek64(fd, off, whence)
}

// ---------------------------------------------------------------- controlled scheduling
// Pool threads are registered. At every scheduling point (file operation on the WAD, memory
// allocation inside a decoding task) they park. A controller thread waits until every registered
// thread is parked or blocked in a futex, then lets exactly one parked thread run on.
pub const SLOTS: usize = 8;
const RUNNING: u32 = 0;
const PARKED: u32 = 1;
const BLOCKED: u32 = 2;
#[allow(clippy::declare_interior_mutable_const)]
const U0: AtomicU32 = AtomicU32::new(0);
#[allow(clippy::declare_interior_mutable_const)]
const I0: AtomicI32 = AtomicI32::new(0);
static STATE: [AtomicU32; SLOTS] = [U0; SLOTS];
static GRANT: [AtomicU32; SLOTS] = [U0; SLOTS];
static KIND: [AtomicU32; SLOTS] = [U0; SLOTS];
/// order of first point of the thread in this execution, from 1
static LABEL: [AtomicU32; SLOTS] = [U0; SLOTS];
static OPENED: [AtomicI32; SLOTS] = [I0; SLOTS];
static NEXT_LABEL: AtomicU32 = AtomicU32::new(0);
static REGISTERED: AtomicUsize = AtomicUsize::new(0);
static PENDING_WAKES: AtomicI64 = AtomicI64::new(0);
static ALLOC_POINTS: AtomicBool = AtomicBool::new(false);

pub fn register_pool_thread(i: usize) {
    SLOT.with(|s| s.set(i));
    REGISTERED.fetch_max(i + 1, SeqCst);
}

fn futex(addr: *const u32, op: usize, val: usize) -> CLong {
    unsafe { raw(202, addr as usize, op, val, 0, 0, 0) }
}

fn sched_point(kind: u32) {
    let s = SLOT.with(|s| s.get());
    if s >= SLOTS || MODE.load(Relaxed) != 2 {
        return;
    }
    if kind == 1 {
        OPENED[s].store(1, Relaxed);
    }
    if kind == 4 && OPENED[s].load(Relaxed) == 0 {
        return;
    }
    if LABEL[s].load(Relaxed) == 0 {
        LABEL[s].store(NEXT_LABEL.fetch_add(1, SeqCst) + 1, SeqCst);
    }
    KIND[s].store(kind, Relaxed);
    GRANT[s].store(0, SeqCst);
    STATE[s].store(PARKED, SeqCst);
    while GRANT[s].load(SeqCst) == 0 && MODE.load(SeqCst) == 2 {
        futex(GRANT[s].as_ptr(), 128, 0); // FUTEX_WAIT_PRIVATE
    }
    STATE[s].store(RUNNING, SeqCst);
}

/// libc's variadic syscall(): std's futex operations come through here, which tells the controller
/// which registered threads are blocked.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: CLong, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> CLong {
    if n == 202 {
        let cmd = b & 127;
        if cmd == 0 || cmd == 9 {
            let s = SLOT.with(|s| s.get());
            if s < SLOTS {
                STATE[s].store(BLOCKED, SeqCst);
            }
            let r = raw(n, a, b, c, d, e, f);
            if s < SLOTS {
                STATE[s].store(RUNNING, SeqCst);
            }
            if r == 0 {
                PENDING_WAKES.fetch_sub(1, SeqCst);
            }
            return ret(r);
        }
        if cmd == 1 || cmd == 10 {
            // announce before waking: the woken thread may return first
            PENDING_WAKES.fetch_add(1 << 32, SeqCst);
            let r = raw(n, a, b, c, d, e, f);
            PENDING_WAKES.fetch_add(r.max(0) - (1 << 32), SeqCst);
            return ret(r);
        }
    }
    ret(raw(n, a, b, c, d, e, f))
}

pub struct PointAlloc;
unsafe impl GlobalAlloc for PointAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        alloc_point();
        let p = System.alloc(l);
        live(p, l.size() as i64);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        live(p, -(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        alloc_point();
        let p = System.alloc_zeroed(l);
        live(p, l.size() as i64);
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        live(q, n as i64 - l.size() as i64);
        q
    }
}
#[inline(always)]
fn alloc_point() {
    if ALLOC_POINTS.load(Relaxed) {
        if MODE.load(Relaxed) == 3 {
            call_point();
        } else {
            sched_point(4);
        }
    }
}

// ---------------------------------------------------------------- what calls leave behind
static COUNT_LIVE: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);
#[inline(always)]
fn live(p: *mut u8, n: i64) {
    if COUNT_LIVE.load(Relaxed) && !p.is_null() {
        LIVE.fetch_add(n, Relaxed);
    }
}
/// bytes allocated and not freed since the count was switched on
pub fn live_bytes() -> i64 {
    COUNT_LIVE.store(true, SeqCst);
    LIVE.load(SeqCst)
}
static AUDIT: AtomicBool = AtomicBool::new(false);
static WRITTEN: Mutex<Vec<Vec<u8>>> = Mutex::new(Vec::new());
fn note_written(p: &[u8]) {
    if !INSIDE.with(|i| i.replace(true)) {
        WRITTEN.lock().unwrap().push(p.to_vec());
        INSIDE.with(|i| i.set(false));
    }
}
/// the paths opened for writing, or created, while `f` ran
pub fn with_audit<T>(f: impl FnOnce() -> T) -> (T, Vec<Vec<u8>>) {
    AUDIT.store(true, SeqCst);
    let r = f();
    AUDIT.store(false, SeqCst);
    (r, std::mem::take(&mut *WRITTEN.lock().unwrap()))
}

// ---------------------------------------------------------------- two callers
// Two host threads, each with one call to make. A host parks before its call and whenever the
// number of its points so far (file operations and writes; memory allocations too when asked)
// is one of its stops. The controller lets one host run at a time: until it parks, ends, or
// waits for the other.
const DONE: u32 = 3;
#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicUsize = AtomicUsize::new(usize::MAX);
static STOPS: [[AtomicUsize; 4]; 2] = [[Z, Z, Z, Z], [Z, Z, Z, Z]];
static COUNT: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];

fn call_point() {
    if MODE.load(Relaxed) != 3 {
        return;
    }
    let s = SLOT.with(|s| s.get());
    if s >= 2 {
        return;
    }
    let k = COUNT[s].fetch_add(1, Relaxed);
    if STOPS[s].iter().any(|x| x.load(Relaxed) == k) {
        park(s);
    }
}
fn park(s: usize) {
    GRANT[s].store(0, SeqCst);
    STATE[s].store(PARKED, SeqCst);
    while GRANT[s].load(SeqCst) == 0 && MODE.load(SeqCst) == 3 {
        futex(GRANT[s].as_ptr(), 128, 0);
    }
    STATE[s].store(RUNNING, SeqCst);
}

/// What this thread does from here on is not part of its call.
pub fn leave() {
    SLOT.with(|s| s.set(usize::MAX));
}

#[derive(Debug, Default)]
pub struct Duo {
    /// points each host came by
    pub counts: [usize; 2],
    /// times a host was stopped on the way
    pub stops: usize,
    /// a host had to go on because the other waited for it
    pub forced: usize,
    /// nothing could go on any more
    pub stuck: bool,
}

/// Only in a process of its own: where nothing can go on, the hosts stay behind.
pub fn two_callers(first: usize, stops: [&[usize]; 2], fine: bool, calls: [Box<dyn FnOnce() -> Vec<u8> + Send>; 2]) -> (Vec<Option<Vec<u8>>>, Duo) {
    for h in 0..2 {
        COUNT[h].store(0, SeqCst);
        for i in 0..4 {
            STOPS[h][i].store(stops[h].get(i).copied().unwrap_or(usize::MAX), SeqCst);
        }
        STATE[h].store(RUNNING, SeqCst);
    }
    let n = REGISTERED.load(SeqCst).max(2);
    // let the pool fall asleep first
    let t0 = std::time::Instant::now();
    while !(PENDING_WAKES.load(SeqCst) == 0 && (2..n).all(|i| STATE[i].load(SeqCst) != RUNNING)) && t0.elapsed().as_millis() < 500 {
        std::thread::yield_now();
    }
    PENDING_WAKES.store(0, SeqCst);
    MODE.store(3, SeqCst);
    ALLOC_POINTS.store(fine, SeqCst);
    static OUT: [Mutex<Option<Vec<u8>>>; 2] = [Mutex::new(None), Mutex::new(None)];
    let mut threads = Vec::new();
    for (h, f) in calls.into_iter().enumerate() {
        threads.push(std::thread::spawn(move || {
            SLOT.with(|s| s.set(h));
            park(h);
            let r = f();
            leave();
            *OUT[h].lock().unwrap() = Some(r);
            STATE[h].store(DONE, SeqCst);
        }));
    }
    let mut d = Duo::default();
    let mut last = 1 - first;
    let mut granted = 0;
    let mut idle = std::time::Instant::now();
    let mut settled = 0;
    loop {
        let st = |i: usize| STATE[i].load(SeqCst);
        if (0..2).all(|h| st(h) == DONE) {
            break;
        }
        let running = (0..n).any(|i| st(i) == RUNNING);
        let waited = idle.elapsed().as_millis();
        if waited > 20_000 {
            d.stuck = true;
            break;
        }
        // a host that spins instead of sleeping is as good as blocked after a while
        let patience = if running { 1000 } else { 200 };
        if (running || PENDING_WAKES.load(SeqCst) != 0) && waited < patience {
            settled = 0;
            std::thread::yield_now();
            continue;
        }
        let en: Vec<usize> = (0..2).filter(|i| st(*i) == PARKED && GRANT[*i].load(SeqCst) == 0).collect();
        if en.is_empty() {
            std::thread::yield_now();
            continue;
        }
        settled += 1;
        if settled < 2 {
            continue;
        }
        settled = 0;
        // before the first grant both have to be there
        if granted == 0 && en.len() < 2 {
            continue;
        }
        let h = if granted == 0 {
            first
        } else if en.contains(&(1 - last)) {
            1 - last
        } else {
            last
        };
        if granted > 0 {
            if st(last) == BLOCKED || (h == last && st(1 - h) == BLOCKED) {
                d.forced += 1;
            }
            if st(last) == PARKED {
                d.stops += 1;
            }
        }
        last = h;
        granted += 1;
        idle = std::time::Instant::now();
        STATE[h].store(RUNNING, SeqCst);
        GRANT[h].store(1, SeqCst);
        futex(GRANT[h].as_ptr(), 129, 1);
    }
    ALLOC_POINTS.store(false, SeqCst);
    d.counts = [COUNT[0].load(SeqCst), COUNT[1].load(SeqCst)];
    if !d.stuck {
        for t in threads {
            let _ = t.join();
        }
    }
    MODE.store(0, SeqCst);
    (OUT.iter().map(|o| o.lock().unwrap().take()).collect(), d)
}

/// One departure from the default scheduling (run on as long as possible): at grant number `step`
/// let the `other`-th other enabled thread (in label order) run instead.
#[derive(Clone, Copy, Debug)]
pub struct Preemption {
    pub step: usize,
    pub other: usize,
}
#[derive(Clone, Debug, Default)]
pub struct SchedTrace {
    /// (label, kind) of every grant
    pub grants: Vec<(u32, u32)>,
    /// how many threads were enabled at each grant
    pub enabled: Vec<usize>,
    pub applied: usize,
    pub stuck: bool,
}

fn quiescent(n: usize) -> bool {
    PENDING_WAKES.load(SeqCst) == 0 && (0..n).all(|i| STATE[i].load(SeqCst) != RUNNING)
}

/// Runs `f` (which must use only registered pool threads for its parallel work) under the schedule
/// given by `plan`. `order` selects among the non-preemptive default choices: when the running
/// thread blocks or ends, 0 = lowest label next, 1 = highest label next.
pub fn with_schedule<T>(plan: &[Preemption], order: usize, allocs: bool, f: impl FnOnce() -> T) -> (T, SchedTrace) {
    let n = REGISTERED.load(SeqCst);
    // let the pool fall asleep first
    let t0 = std::time::Instant::now();
    while !quiescent(n) && t0.elapsed().as_millis() < 2000 {
        std::thread::yield_now();
    }
    PENDING_WAKES.store(0, SeqCst);
    for i in 0..SLOTS {
        LABEL[i].store(0, SeqCst);
        OPENED[i].store(0, SeqCst);
    }
    for t in TRACKED.iter() {
        t.store(false, Relaxed);
    }
    NEXT_LABEL.store(0, SeqCst);
    let done = AtomicBool::new(false);
    let plan = plan.to_vec();
    let mut out = None;
    let mut tr = SchedTrace::default();
    std::thread::scope(|sc| {
        let done = &done;
        let ctl = sc.spawn(move || {
            let mut tr = SchedTrace { grants: Vec::with_capacity(1024), enabled: Vec::with_capacity(1024), applied: 0, stuck: false };
            let mut cur = 0u32; // label
            let mut idle = std::time::Instant::now();
            let mut settled = 0;
            loop {
                if done.load(SeqCst) {
                    break;
                }
                if !quiescent(n) {
                    settled = 0;
                    std::hint::spin_loop();
                    if idle.elapsed().as_millis() > 1 {
                        std::thread::yield_now();
                    }
                    continue;
                }
                let mut en: Vec<(u32, usize)> = (0..n).filter(|i| STATE[*i].load(SeqCst) == PARKED && GRANT[*i].load(SeqCst) == 0).map(|i| (LABEL[i].load(SeqCst), i)).collect();
                if en.is_empty() {
                    if idle.elapsed().as_secs() > 20 {
                        tr.stuck = true;
                        MODE.store(0, SeqCst);
                        ALLOC_POINTS.store(false, SeqCst);
                        break;
                    }
                    std::thread::yield_now();
                    continue;
                }
                // look twice: a thread between two futex calls is not settled
                settled += 1;
                if settled < 2 {
                    continue;
                }
                settled = 0;
                en.sort();
                let step = tr.grants.len();
                let at = en.iter().position(|e| e.0 == cur);
                let mut ix = match at {
                    Some(i) => i,
                    None => {
                        if order == 0 {
                            0
                        } else {
                            en.len() - 1
                        }
                    }
                };
                if let Some(p) = plan.iter().find(|p| p.step == step) {
                    if en.len() > 1 {
                        let others: Vec<usize> = (0..en.len()).filter(|i| *i != ix).collect();
                        if p.other < others.len() {
                            ix = others[p.other];
                            tr.applied += 1;
                        }
                    }
                }
                let (l, s) = en[ix];
                cur = l;
                tr.grants.push((l, KIND[s].load(SeqCst)));
                tr.enabled.push(en.len());
                idle = std::time::Instant::now();
                STATE[s].store(RUNNING, SeqCst);
                GRANT[s].store(1, SeqCst);
                futex(GRANT[s].as_ptr(), 129, 1);
            }
            tr
        });
        MODE.store(2, SeqCst);
        ALLOC_POINTS.store(allocs, SeqCst);
        let r = f();
        ALLOC_POINTS.store(false, SeqCst);
        MODE.store(0, SeqCst);
        done.store(true, SeqCst);
        for i in 0..n {
            GRANT[i].store(1, SeqCst);
            futex(GRANT[i].as_ptr(), 129, 1);
        }
        out = Some(r);
        tr = ctl.join().unwrap();
    });
    (out.unwrap(), tr)
}

// ---------------------------------------------------------------- captured standard output
static CAP: Mutex<(i32, i32)> = Mutex::new((-1, -1));

pub fn init() {
    std::panic::set_hook(Box::new(|_| {}));
    // endless growth in the code under test must end in an abort here, not in the sandbox's memory
    limit_space(7 << 29);
}

/// Limits the address space of this process (the soft limit only, so that it can be raised again).
pub fn limit_space(bytes: u64) {
    extern "C" {
        fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
        fn getrlimit(r: i32, l: *mut [u64; 2]) -> i32;
    }
    unsafe {
        let mut l = [0u64; 2];
        getrlimit(9, &mut l);
        setrlimit(9, &[bytes.min(l[1]), l[1]]);
    }
}

/// Limits the size of the files this process writes; beyond it writes fail instead of ending the process.
pub fn limit_file_size(bytes: u64) {
    extern "C" {
        fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
        fn getrlimit(r: i32, l: *mut [u64; 2]) -> i32;
        fn signal(n: i32, h: usize) -> usize;
    }
    unsafe {
        signal(25, 1);
        let mut l = [0u64; 2];
        getrlimit(1, &mut l);
        setrlimit(1, &[bytes.min(l[1]), l[1]]);
    }
}

/// Runs `f` while no other process of this check does, with room for whole files of gigabytes.
pub fn alone_with_space<T>(lock: &std::path::Path, f: impl FnOnce() -> T) -> T {
    use std::os::unix::io::AsRawFd;
    extern "C" {
        fn flock(fd: i32, op: i32) -> i32;
    }
    static ONE: Mutex<()> = Mutex::new(());
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    let file = std::fs::OpenOptions::new().create(true).append(true).open(lock).expect("lock file");
    while unsafe { flock(file.as_raw_fd(), 2) } != 0 {}
    limit_space(20 << 30);
    let r = f();
    limit_space(7 << 29);
    r
}

/// Runs `f` with file descriptor 1 going to a memory file, and returns what was written to it.
pub fn capture_stdout<T>(f: impl FnOnce() -> T) -> (T, Vec<u8>) {
    use std::io::Write;
    let mut cap = CAP.lock().unwrap();
    unsafe {
        if cap.0 < 0 {
            cap.0 = memfd_create(b"cap\0".as_ptr(), 0);
            cap.1 = dup(1);
        }
        ftruncate(cap.0, 0);
        lseek64(cap.0, 0, 0);
        let _ = std::io::stdout().flush();
        dup2(cap.0, 1);
        let r = f();
        let _ = std::io::stdout().flush();
        dup2(cap.1, 1);
        let len = lseek64(cap.0, 0, 2) as usize;
        let mut b = vec![0u8; len];
        let mut off = 0;
        while off < len {
            let k = pread64(cap.0, b.as_mut_ptr().add(off), len - off, off as i64);
            if k <= 0 {
                break;
            }
            off += k as usize;
        }
        (r, b)
    }
}
